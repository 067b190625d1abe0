"""Writes /verif/properties.jsonl (the list of properties is maintained here)."""
import json, os
S = 'src/hypershell/'
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': [S + f for f in files],
                          'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [{'name': m, 'where': S + w} for m, w in mech],
                          'observe_at': list(observe), 'hook_needed': None}})
UT = 'The existing tests only exercise database URL formatting; '

prop('C01', 'Every submitted task ends with exactly one recorded final result',
     'When a server with a database is run to completion and at least one working client stays connected, it returns only after every task it was given (or found unfinished in the database) has a recorded exit status and completion time. No task is lost between submission, scheduling, delivery, execution, collection and recording, for any bundle sizes, number of clients and executors, or timing of the source and of the tasks. No internal component stops with an error along the way.',
     ['schedules', 'configurations', 'inputs'], 'all interleavings of submitter, scheduler, receiver, confirm, heartbeat, client threads; all bundle sizes/waits, client counts, slow or bursty sources',
     UT + 'nothing runs a server with a client, and losing a task needs a specific interleaving or a partly filled bundle at shutdown.',
     ['server.py', 'client.py', 'submit.py', 'data/model.py', 'core/queue.py'],
     [('scheduler/receiver/confirm machines', 'server.py'), ('client scheduler/executor/collector', 'client.py'), ('submit pipeline', 'submit.py')],
     [('task table', 'one row per attempt', S + 'data/model.py'), ('scheduled/completed queues', 'bundles in flight', S + 'core/queue.py')],
     ['task table after every commit', 'shared queue puts and gets', 'process starts'])
prop('C02', 'Submission stores each input line exactly once, in order, and promptly',
     'Each item of a submitted source becomes exactly one new task whose arguments are the item stripped of surrounding whitespace and expanded by the submission template, carrying the requested tags, a fresh identifier, first-attempt status, and a submit time that does not go backwards along the source order; the reported count equals the number of items. Buffered tasks are committed when the bundle size is reached, when the bundle wait has elapsed since the previous commit (even if the source is then idle or slow), and at the end of the source. No commit holds more tasks than the bundle size, and nothing is committed twice. This holds for files, standard input, iterables and single tasks alike, for submissions made at the same time, and a submission which is cut short has stored a first part of its items and nothing else.',
     ['inputs', 'schedules', 'configurations'], 'all sources (empty, slow, bursty, larger than the buffer), bundle sizes/waits, templates and tags',
     UT + 'no test submits a task, let alone from a source that stalls.',
     ['submit.py', 'data/model.py'], [('loader', 'submit.py'), ('database committer', 'submit.py')],
     [('local buffer', 'tasks loaded but not committed', S + 'submit.py')], ['task inserts per commit', 'return value of submit_from/submit_file'])
prop('C03', 'Tasks are dispatched once per scheduling, in order, in bounded bundles',
     'A task is handed to the outgoing queue exactly once for each time it is scheduled, only after the database records it as scheduled by this server with a schedule time, and never if it already has a result. First attempts are dispatched in submission order, and no bundle is empty or larger than the configured bundle size. The dispatched copy carries the same identifier, arguments, attempt number and tags as the stored task.',
     ['schedules', 'configurations'], 'all interleavings of the scheduler with submission, results, reverts, queue back-pressure; all bundle sizes',
     UT + 'double or out-of-order dispatch needs back-pressure on the queue or concurrent submission.',
     ['server.py', 'data/model.py'], [('selection of next tasks', 'data/model.py'), ('scheduler post', 'server.py')],
     [('schedule_time', 'null until scheduled', S + 'data/model.py')], ['scheduled queue', 'task table'])
prop('C04', 'The recorded result is what actually happened when the task ran',
     'For every attempt that runs to its end, the database records the exit status, client identity and host, the expanded command, start and completion times, duration and waiting time (in whole seconds) of the one execution that took place on that client, and an attempt that cannot be started because its command cannot be expanded is recorded with status -1 and both times. Recording a result leaves the other fields of that task (arguments, submission data, schedule data, attempt, lineage) and every other task unchanged.',
     ['schedules', 'inputs', 'histories'], 'all exit codes (including signals), durations, batches of results mixing several tasks and clients',
     UT + 'no test executes a task.',
     ['client.py', 'server.py', 'data/model.py'], [('executor', 'client.py'), ('receiver update', 'server.py')],
     [('result columns', 'exit_status, times, client', S + 'data/model.py')], ['process start/exit', 'task table'])
prop('C05', 'Failed tasks are retried up to the limit, once per failure, with linked lineage',
     'With retries enabled a completed attempt with non-zero status is followed by exactly one new attempt if and only if its attempt number is below the allowed number of attempts; an attempt with status zero is never retried. The successor is a new task with the same arguments and tags, attempt number one higher, linked to its predecessor, and the predecessor is marked retried and linked to its successor. A finite server does not stop while a retry is still owed.',
     ['schedules', 'histories', 'configurations'], 'all failure patterns, attempt limits, both retry orders, results arriving between any two scheduler steps',
     UT + 'retry behaviour depends on when a failing result lands relative to scheduler polls.',
     ['data/model.py', 'server.py'], [('select_failed and follow-up scheduling', 'data/model.py')],
     [('attempt/retried/previous_id/next_id', 'lineage', S + 'data/model.py')], ['task table'])
prop('C06', 'Retry priority follows the configured mode',
     'In eager mode failed tasks that are owed a retry are scheduled ahead of tasks never scheduled before; otherwise never-scheduled tasks go first and retries only use the room left in the bundle. Among failed tasks those that completed first are retried first. When enough tasks are available a bundle is filled to the configured size in either mode.',
     ['histories', 'configurations'], 'all mixes of new and failed tasks at selection time, all bundle sizes and limits',
     UT + 'ordering is only visible with both kinds of task waiting.',
     ['data/model.py', 'server.py'], [('eager and non-eager selection', 'data/model.py')], [], ['scheduled queue', 'task table'])
prop('C07', 'A server stops exactly when its work is done',
     'A finite server stops scheduling once submission has ended and no task is unfinished or owed a retry, and not before: a slow source, an empty database, or results still outstanding keep it going. In restart mode it stops at once if everything is already finished, and in forever mode it keeps scheduling whatever is submitted later and never stops by itself.',
     ['schedules', 'configurations', 'inputs'], 'all interleavings of late submissions and results with the completion test; modes finite, restart, forever',
     UT + 'stopping too early or never needs a particular order of submission, results and polling.',
     ['server.py', 'data/model.py'], [('scheduler termination test', 'server.py')], [], ['scheduler end', 'task table', 'disconnect requests'])
prop('C08', 'After a crash at any point a restarted server finishes the remaining work',
     'If the server (and with it its queues and clients) is killed at any point, a server restarted on the same database schedules every task without a recorded result again, keeps every recorded result as it was without re-running it, keeps retry lineage consistent (at most one successor per attempt), and completes all the work with no error. Committed submissions survive and no task is duplicated by recovery.',
     ['crash_points', 'schedules', 'histories'], 'server kill before/after/inside every database statement and queue operation, repeated',
     UT + 'no crash is ever injected.',
     ['server.py', 'data/model.py'], [('revert of interrupted tasks at start', 'server.py'), ('transaction boundaries', 'data/model.py')],
     [], ['task table before and after restart'])
prop('C09', 'Clients are evicted only for silence, and exactly their tasks are recovered',
     'A connected client whose latest heartbeat is older than the eviction period is evicted within one check interval of that (recorded as evicted with a disconnect time), and a client that keeps sending heartbeats is never evicted. On eviction exactly the unfinished tasks confirmed by that client return to the unscheduled state with their run data cleared and are scheduled again; finished tasks and tasks of other clients are untouched. A client heard from again after eviction is registered again as connected.',
     ['fault_sequences', 'schedules', 'histories'], 'client crashes, pauses and resumptions at any point, several clients with mixed finished and unfinished tasks, any eviction period',
     UT + 'no test involves a client, a heartbeat or a clock.',
     ['server.py', 'data/model.py', 'core/heartbeat.py'], [('heart monitor', 'server.py'), ('orphan revert', 'data/model.py')],
     [('client table', 'connected/disconnected/evicted', S + 'data/model.py')], ['client table', 'task table', 'heartbeat queue'])
prop('C10', 'Shutdown is orderly: every client is told once, drains, and the server waits',
     'When scheduling is over each connected client, including one that connects while shutdown is under way, receives a disconnect request; a client that receives it still runs every task it already accepted, returns all their results, and only then announces that it has finished. The server returns after all connected clients have announced or been evicted and all returned results have been recorded, and neither side hangs or fails. A server can be started again in the same process afterwards.',
     ['schedules', 'configurations'], 'all interleavings of disconnect, registration, draining and result return, any number of clients and executors',
     UT + 'no test shuts anything down.',
     ['server.py', 'client.py', 'core/queue.py'], [('sentinels', 'server.py'), ('client join order', 'client.py')], [], ['queues', 'process lifetimes'])
prop('C11', 'A client runs each task it receives exactly once, within its parallelism',
     'Every task in a bundle taken by a client is started exactly once by that client, with its expanded command and configured working directory, unless its command cannot be expanded. At most the configured number of tasks run at the same time on a client, waiting tasks do not idle while an executor is free, and tasks are started in the order received. Exactly one result per received task is returned.',
     ['schedules', 'configurations', 'inputs'], 'all interleavings of executors, bundle sizes, executor counts, task durations',
     UT + 'no test starts an executor.',
     ['client.py'], [('client scheduler', 'client.py'), ('executors', 'client.py')], [('inbound/outbound queues', 'local hand-off', S + 'client.py')], ['process starts/exits', 'completed queue'])
prop('C12', 'Finished results are returned in bounded bundles without delay or loss',
     'A client returns finished results in the order they finished, in non-empty bundles no larger than its bundle size, each result exactly once even when the shared queue is full. A result is sent when the bundle size is reached or the bundle wait has passed since the previous send, and any partly filled bundle is sent when the client shuts down.',
     ['schedules', 'configurations'], 'all bundle sizes/waits, result timings, back-pressure on the queue, shutdown at any point',
     UT + 'a lost tail needs a partly filled bundle or a full queue at shutdown.',
     ['client.py'], [('collector', 'client.py')], [], ['completed queue'])
prop('C13', 'Task time limits escalate from interrupt to terminate to kill on schedule',
     'A task running past its time limit (and no other) is sent an interrupt, then a terminate if still running one signal-wait later, then a kill after two, each at most once and in that order, and no further signals once it has exited; without a limit a task is never signalled. A task that ends after a signal is recorded with its real exit status, and the executor goes on with the next task without carrying over any of this state. If even a kill is ignored for another signal-wait the executor gives up rather than wait forever.',
     ['schedules', 'inputs', 'configurations'], 'all task durations relative to limit and signal-wait, all patterns of ignored signals, sequences of tasks on the same executor',
     UT + 'no test runs a task with a time limit.',
     ['client.py'], [('executor wait/check/signal states', 'client.py')], [], ['signals delivered to task processes', 'recorded status'])
prop('C14', 'Interrupt signals and idle timeout stop intake gracefully',
     'On the first user interrupt signal a server stops scheduling further tasks and shuts down in order, and a stand-alone client takes no further bundles but runs and returns everything it already accepted; the second user signal additionally stops running tasks through the escalation sequence. A client with an idle timeout leaves when nothing was received for that long, not earlier, and counts the time from the last bundle received.',
     ['schedules', 'histories'], 'signal arrival at any point of client and server operation, idle gaps around the timeout',
     UT + 'no test delivers a signal.',
     ['server.py', 'client.py', 'core/signal.py'], [('signal checks', 'server.py'), ('signal and timeout checks', 'client.py')], [], ['queues', 'task signals', 'process lifetimes'])
prop('C15', 'Each delivered task is attributed to the client that took it',
     'Unless confirmation is disabled, a client confirms every bundle it takes, naming exactly the tasks in it and itself, before running them; the server records that client and host on exactly those tasks and changes nothing else. With confirmation disabled no confirmation is sent and no attribution is made before the result arrives.',
     ['schedules', 'configurations'], 'all interleavings of several clients taking and finishing bundles',
     UT + 'no test confirms a bundle.',
     ['server.py', 'client.py'], [('confirm machine', 'server.py'), ('client confirmation', 'client.py')], [], ['confirmed queue', 'task table'])
prop('C16', 'Database-free mode delivers each task exactly once and touches no database',
     'With the database disabled every item of the source is delivered to the clients exactly once, in order, in bundles no larger than the bundle size, flushed on size, on bundle wait and at the end of the source, even when the shared queue stays full for a long time. No task or client record is written, and the server returns after all clients have returned all results.',
     ['schedules', 'inputs', 'configurations'], 'all sources, bundle sizes/waits, back-pressure patterns, client counts',
     UT + 'a lost last bundle needs a full queue at the end of the source.',
     ['submit.py', 'server.py'], [('queue committer', 'submit.py')], [], ['scheduled queue', 'database file'])
prop('C17', 'Exactly the failed attempts are reported to the failure stream',
     'When a failure stream is configured the arguments of each attempt recorded with a non-zero status are written to it once, one per line, in the order the results arrive, and nothing else is written; this holds with and without a database. Without one nothing is written.',
     ['histories', 'configurations'], 'all mixes of succeeding, failing, retried and signalled tasks and bundlings',
     UT + 'no test has a failure stream.',
     ['server.py'], [('receiver', 'server.py')], [], ['failure stream'])
prop('C18', 'Each task sees its own environment, directory and output files',
     'The environment of a running task holds the client environment plus the exported configuration plus its own task fields (and tag values) under the task prefix, never those of another task, and it runs in the configured working directory. With capture enabled its standard output and error go to files named after its own identifier, recorded on the task, complete when the result is returned, and never mixed with another task; otherwise they go to the streams given to the client, which stay usable for every later task.',
     ['schedules', 'inputs', 'configurations'], 'concurrent executors with capture, all tag and argument contents',
     UT + 'no test runs a task process.',
     ['client.py', 'core/config.py'], [('task environment', 'client.py'), ('capture', 'client.py')], [], ['arguments of process creation', 'output files'])
prop('C19', 'Bulk updates change exactly the selected tasks and exactly the named fields',
     'A task update with any combination of assignments, tag assignments, tag removals, cancel, revert or delete, conditions, tag filters, completion aliases, ordering and limit affects exactly the tasks the same search would return, sets exactly the named fields and tags to the given values, and leaves all other tasks, fields and tags as they were. All the requested changes are applied to the same selection even if the first change alters the fields being filtered on. Cancel sets only schedule time and status, revert clears all scheduling and run data, delete removes the rows, and invalid requests or a declined confirmation change nothing.',
     ['inputs', 'histories'], 'all combinations of assignments, tags, actions, filters, order and limit on all table contents',
     UT + 'no test updates a task.',
     ['task.py', 'data/model.py'], [('update application', 'task.py')], [], ['task table before and after'])
prop('C20', 'Cancelled tasks stay cancelled',
     'A task cancelled before it is scheduled is never dispatched, never retried and never reported as unfinished by the server: a running server and a server restarted later treat it as finished and can complete. It runs again only after being explicitly reverted, and then as a normal new task.',
     ['histories', 'schedules'], 'cancellation at any point before, during or between server runs, with and without retries, eviction and restart',
     UT + 'no test cancels a task.',
     ['data/model.py', 'task.py', 'server.py'], [('remaining/interrupted/failed queries', 'data/model.py')], [], ['task table', 'scheduled queue'])
prop('C21', 'Search returns exactly the matching tasks, in the requested order and number',
     'A task search with any conjunction of comparison conditions (equal, not equal, less, greater, less-or-equal, greater-or-equal, regular expression, null tests), tag filters by name or by value, and completion aliases returns exactly the tasks satisfying all of them, ordered by the requested field and direction, cut to the limit, and the count option reports the size of that result. Tag listings give the distinct keys or values present, and task info shows the fields as they are stored. (SQLite refuses comparisons of time fields other than null tests.)',
     ['inputs'], 'all conditions over all field types and values, all tag types, all table contents',
     UT + 'no test searches.',
     ['task.py'], [('where clauses and tag filters', 'task.py')], [], ['search output'])
prop('C22', 'Heartbeats are timely and the client registry mirrors them',
     'A running client sends its first heartbeat at once (a client told to delay its start: not before that delay, and at once after it), then one every heart rate period (within about a second) until it has finished, and exactly one final announcement as its last message. The server keeps one record per client with its host and connection time; the record shows it connected from first contact until its final announcement or eviction, when the disconnect time is set and the evicted mark tells which of the two it was. A disconnect or eviction never alters the record of another client.',
     ['schedules', 'fault_sequences', 'configurations'], 'all heart rates, client lifetimes, orders of registration, disconnect, eviction and re-registration',
     UT + 'no test sends a heartbeat.',
     ['client.py', 'server.py', 'core/heartbeat.py'], [('client heartbeat', 'client.py'), ('heart monitor', 'server.py')], [], ['heartbeat queue', 'client table'])
prop('C23', 'Autoscaling launches within bounds and only when warranted',
     'The autoscaler first launches the initial number of clients, then at most one client per period, never exceeding the maximum through scaling up, replacing exited clients whenever fewer than the minimum are alive, and launching nothing when there are no tasks and the minimum is met. Under the dynamic policy a client is added when task pressure is above one and the maximum is not reached, and not when it is at or below one; under the fixed policy pressure is ignored and a client is only added to restore the minimum or when none is left while tasks remain. Exited clients are not counted.',
     ['histories', 'configurations'], 'all policies, sizes, periods, client exits at any time, task backlogs and pressures',
     UT + 'no test scales a cluster.',
     ['cluster/remote.py', 'data/model.py'], [('autoscaler', 'cluster/remote.py'), ('task pressure', 'data/model.py')], [], ['launches', 'task and client tables'])
prop('C24', 'Template patterns expand to exactly the documented text',
     'In a command template each pattern - the whole argument line, its directory, second directory, basename, basename and path without extension, extension with and without dot, whitespace-split slices (single index, ranges, steps, negative positions), lambda and shell expressions - is replaced by exactly the documented text, as many times as they occur, and all other text is left as it is. A pattern that is unknown or cannot be evaluated is an error (of that task on a client, of the submission when submitting), never a silently wrong command.',
     ['inputs'], 'all templates over the pattern language and all argument shapes (multiple words, dots, slashes, empty parts)',
     UT + 'no test expands a template.',
     ['core/template.py', 'client.py', 'submit.py'], [('template expansion', 'core/template.py')], [], ['expanded command'])
prop('C25', 'Task data survives transport and storage unchanged',
     'Every field of a task and every message exchanged between server and client (confirmation, heartbeat) is the same after being encoded, transported and decoded, and after being stored and loaded: text stays text whatever it looks like (numbers, dates, quotes, line breaks, non-ASCII), times keep their instant, and tags keep their keys, types and values. This holds between processes in different time zones. (SQLite keeps local times, which are ambiguous in the one hour repeated at the end of daylight saving time.)',
     ['inputs'], 'all field contents, in particular text resembling other types',
     UT + 'no test encodes a task.',
     ['data/model.py', 'core/heartbeat.py', 'client.py'], [('pack/unpack', 'data/model.py')], [], ['decoded messages', 'executed command'])
prop('C26', 'Configuration sources override each other in the documented order',
     'The effective value of each setting is that of the highest-priority source that defines it, in the order defaults, system file, user file, local file, environment variables, and sources combine per setting rather than replacing whole sections. Writing a setting to a configuration file changes that setting only, keeps every other setting in the file, and is what is read back.',
     ['configurations', 'histories'], 'all combinations of sources defining or not defining a setting, sequences of writes',
     UT + 'no test loads a configuration.',
     ['core/config.py', 'config.py'], [('load and update', 'core/config.py')], [], ['effective configuration', 'configuration files'])
prop('C27', 'Waiting on a task returns exactly when it has finished, with its result',
     'Waiting on a task returns only after the task has a recorded exit status, within one polling interval of that being recorded by another process, and reports the exit status that was recorded when asked for status or return code; an unknown or malformed identifier is an error at once. Single-task submission stores one task and prints its identifier, and submit-and-wait then reports that same task.',
     ['schedules', 'histories'], 'completion at any time relative to polls, all intervals and statuses, reverts while waiting',
     UT + 'no test waits on a task.',
     ['task.py', 'data/model.py'], [('wait application', 'task.py')], [], ['return time, output and exit code'])
prop('C28', 'Cluster launches give every client the configuration of its server',
     'A cluster started on local, launcher, SSH or autoscaled clients starts one client per requested node (or the given number), each told the address, port and key of the server of that cluster and the requested executor count, bundle size and wait, template, capture, delays, timeouts, signal wait and confirmation mode, exactly as requested and with defaults otherwise; the server gets the same source, retry, ordering, failure-stream and mode options. Node patterns expand to exactly the documented hosts in order. Conflicting options are refused before anything is launched. (The clients of an autoscaled cluster always confirm.) Servers, clients and submissions started by themselves, by their programs or by the documented functions (`serve_from`, `serve_file`, `serve_forever`, `run_client`, `submit_from`, `submit_file`), are given the requested options as well.',
     ['configurations', 'inputs'], 'all combinations of options and cluster kinds, all node patterns',
     UT + 'no test launches a cluster.',
     ['cluster/local.py', 'cluster/remote.py', 'cluster/ssh.py', 'cluster/__init__.py'], [('cluster constructors', 'cluster/remote.py'), ('node list', 'cluster/ssh.py')], [], ['process launch arguments', 'client and server options'])

prop('C29', 'Shared queues deliver every message once, in order, to key holders only',
     'The four queues between a server and its clients (scheduled, completed, heartbeat, confirmed) are separate fifos: what was put by anyone is taken exactly once, unchanged, in the order in which it was put by each process, by one taker. The scheduled and completed queues hold no more than the configured number of messages; putting into a full one or taking from an empty one gives up after the time allowed, without effect. Only who presents the key of the server gets in; several servers on one machine, or within one process, do not share anything; nothing answers once the server has gone.',
     ['schedules', 'inputs', 'configurations'], 'all interleavings of puts and takes by several processes, all queue sizes, messages, keys and numbers of servers',
     UT + 'no test opens a queue.',
     ['core/queue.py'], [('queue server', 'core/queue.py'), ('queue client', 'core/queue.py')],
     [('queues', 'messages put and not taken yet', S + 'core/queue.py')], ['put and get of each queue over a real connection', 'connection attempts'])
prop('C30', 'The database connection is exactly the one the settings describe',
     'Whatever the database section of the configuration says (in a file, by environment variables, or by the _env and _eval variants of any of its parameters), the connection goes to that provider, user, password, host, port and database, character for character; the schema applies to all tables; other parameters reach the provider as options and connection arguments reach its driver. The host defaults to localhost where one is needed. Contradictory settings are refused with the exit status of a bad configuration: unknown providers, SQLite with a server, user or port or with both names for its file, other providers with a file or without a database, a user without password or a password without user. Only SQLite without a file (or with that of the memory) counts as no database.',
     ['inputs', 'configurations'], 'all combinations of settings, all characters in their values, all ways to provide them',
     UT + 'the tests of this part look at a handful of plain values.',
     ['data/core.py', 'core/config.py'], [('database URL', 'data/core.py'), ('engine', 'data/core.py')], [], ['URL and arguments of the engine', 'file which is opened', 'exit status'])
prop('C31', 'Preparing a database keeps its contents; only confirmed truncation removes them',
     'initdb creates the tables where they are missing and leaves every task and client there is as it was. With --truncate it removes all of them if, and only if, this is confirmed: by --yes, or at a terminal by the default, "y" or "yes" in any case; "n" or "no" stops, and anything else, or not being at a terminal, is an error, all without any change. Submitting, and starting a server or cluster, prepares the tables likewise and keeps what is there; given --no-db, a server or cluster needs no database and touches none. Without a configured database these commands refuse or do without.',
     ['inputs', 'histories'], 'all histories of filling, initialising and truncating, all answers, all ways to configure the database',
     UT + 'no test initialises or truncates a database.',
     ['data/__init__.py', 'server.py', 'cluster/__init__.py', 'submit.py'], [('initdb', 'data/__init__.py'), ('server and cluster preparation', 'server.py')],
     [('database', 'tasks and clients', S + 'data/model.py')], ['rows of all tables before and after', 'exit status'])

ids = [p['id'] for p in P]; assert len(set(ids)) == len(ids)
for p in P:
    assert len(p['title']) <= 80, p['id']
    p['statement'] = p['statement'].strip()
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
