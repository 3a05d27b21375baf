#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
R='internal/runner/runner.go'; PA='internal/runner/parallel.go'; W='internal/runner/writer.go'
P=[]
def p(id,title,statement,over,text,why,files,mechanism,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mechanism],observe_at=observe,
                   **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))

p('P01','Tasks run in dependency order, each at most once, and nothing else runs',
 "When a task is run, every dependency has completed before the first command of the task that lists it, dependencies and run items execute in the order in which they are listed, and each task executes at most once per invocation however many times it is reached as a dependency or as a task reference. Exactly the tasks reachable from the requested one run; a task whose condition is false runs neither itself nor its dependencies, and counts as completed.",
 ['programs'],'every acyclic graph of dependencies and task references, and every requested task of it',
 'The tests run a handful of fixed chains and one diamond; the guarantee is over all graphs and mixes of deps and task references.',
 [R,PA],[('runTask claims, runs and marks tasks',R),('syncState',PA)],['order of the commands executed by the bab process'],
 [('task state','unclaimed, running or done','syncState in '+PA)])

p('P02','A failing step stops the run and the exit status tells',
 "If a command exits with a non-zero status or cannot be run, or a needed variable, directory, prompt answer or condition cannot be evaluated, no later run item of that task and no task depending on it executes a command, bab reports the failure on standard error and exits with status 1. If everything that had to run succeeded, bab exits with status 0.",
 ['programs','fault_sequences'],'every position of a failing step in every small task graph, and every kind of failure',
 'Tests check single failing commands in process; they do not vary the position, the nesting or the kind of failure and never look at the exit status of the program.',
 ['main.go','cmd/root.go',R,PA],[('errors returned through runTask and executeTask',R),('run maps errors to exit codes','main.go')],['commands executed after the failure, exit status and standard error of the process'])

p('P03','A parallel block runs every item once and joins, whatever the schedule',
 "Under every interleaving, a parallel block starts each of its selected items, an item's failure does not stop its siblings, and the run item after the block (or the dependent task) starts only after all items have ended and only if none failed; the block fails if and only if an item failed. A task reached from several items of a block runs exactly once, everyone who needs it waits for its end and shares its outcome, and no schedule produces a spurious error, deadlock or crash.",
 ['schedules','programs'],'all interleavings (up to a preemption bound) of the goroutines of parallel blocks over enumerated small task graphs',
 'The tests start real parallel commands and observe one schedule; none shares a task between branches.',
 [PA,R],[('executeParallel and its goroutines, WaitGroup and firstErr',PA),('syncState.claim/wait/finish',PA)],['start and end of every command, returned error'],
 [('task state','unclaimed, running or done, shared between the branches','syncState in '+PA)])

p('P04','A parallel limit is never exceeded, and never needlessly serialises',
 "At no point of any schedule do more than `limit` items of a parallel block run at the same time; without a limit, or with a limit not below the number of items, all items can be in progress together. Every item gets its turn: a limit never loses an item, deadlocks, or keeps a slot after its item has ended, whether it succeeded or failed.",
 ['schedules','configurations'],'all interleavings of blocks of 1 to 4 items with every limit, with failing and succeeding items, nested through task references',
 'One test runs one block with one limit and looks at the total time.',
 [PA],[('the semaphore channel',PA)],['number of items between their start and their end at each step of the schedule'])

p('P05','Parallel output is complete, whole lines with the right label',
 "In interleaved parallel mode every line an item writes to standard output or standard error appears exactly once on the same stream, as one whole line preceded by that item's label and never mixed with another item's text, and the lines of one item keep their order. The result does not depend on how the item's writes are split into chunks, and a last line without a newline is not lost; carriage-return progress updates collapse to their final text.",
 ['inputs','schedules'],'all byte strings over a small alphabet with all ways of splitting them into writes, and all interleavings of the writes of several items',
 'The tests feed a few fixed strings in one or two writes from one goroutine.',
 [W,PA],[('lineBuffer and PrefixWriter under a shared mutex',W),('Flush after each item',PA)],['bytes written to the destination streams'])

p('P06','Parallel output cannot drive the terminal',
 "Whatever bytes a command in a parallel block writes, the text bab passes on contains no escape or control sequence other than colour and style (SGR) sequences, tabs and the line ends bab itself adds; with colour off it contains no escape sequence at all. Printable text of the command is passed on unchanged.",
 ['inputs'],'all strings up to a length over an alphabet of control bytes, escape introducers, parameters, terminators, text and multi-byte characters, in both colour modes',
 'The tests try a dozen known sequences one at a time.',
 [W],[('sanitizeLine, cleanLine and stripControlChars',W)],['bytes written to the destination stream'])

p('P07','Cancelling kills what runs and starts nothing more',
 "When bab receives an interrupt or termination signal at any point of a run, every command it has started is killed together with the processes that command started (those still in its process group), no further command is started, and bab ends promptly. This holds for sequential commands, dependencies and every item of a parallel block, including items still waiting for their turn.",
 ['histories','fault_sequences'],'a signal at every step of enumerated runs, for both signals',
 'No test sends a signal to a running bab.',
 ['main.go',R,PA,'internal/runner/process_unix.go'],[('context from signal.NotifyContext','main.go'),('process groups killed through cmd.Cancel',R),('context checks between run items',R)],['processes alive after bab has ended, commands that started after the signal'])

p('P08','A dry run has no effects and shows what would run',
 "With --dry-run no command is executed, no prompt is asked and no file is changed, and bab exits with the status of the preview. For the requested task and its dependencies the preview shows, in execution order, every command with its variables substituted, every log message and every referenced task that a real run would reach, and none that conditions or platforms exclude.",
 ['programs','configurations'],'enumerated task files of all run item kinds, conditions, platforms and dependencies',
 'The tests check that one dry run does not fail.',
 [R,PA,'cmd/root.go'],[('DryRun branches of executeTask, executeCommand and executeRunItem',R)],['side effects of the commands, lines of the preview'])

p('P09','Variable references are substituted once, literally, and completely',
 "Every `${{ name }}` in a command, log message, environment value, directory, condition or prompt text is replaced by the value of the variable, or of the operating system's environment for `${{ env.NAME }}`, in a single pass: an inserted value is never itself expanded, text that is not a reference is left byte for byte, and `$${{` yields a literal `${{`. A reference to an undefined variable is an error that names it, and the command concerned does not run.",
 ['inputs'],'all strings up to a length over the tokens of the reference syntax, with values that themselves contain references, escapes and special characters, in every place where references are allowed',
 'Tests use a few dozen strings; the properties are about all of them, and about values re-entering expansion at a second place.',
 ['internal/interpolate/interpolate.go',R,'internal/condition/condition.go'],[('Interpolate','internal/interpolate/interpolate.go'),('executeCommand, interpolateEnv and interpolatePrompt',R)],['commands, environment, messages as the child processes and the terminal see them'])

p('P10','Variables resolve by scope, in any order, and stay in their task',
 "A task sees the file's global variables overridden by its own; variables may refer to each other in any order and depth, giving the same values whatever the order of declaration, and a circular or undefined reference is reported instead of resolved. The answer to a prompt is visible to the later run items of its own task and to nothing else: no other task, dependency or parallel sibling ever sees another task's variables or answers, and global values never change during a run.",
 ['programs','histories'],'all reference graphs over a few global and task variables, and all short histories of tasks and prompts that share names',
 'Tests resolve a few chains and cycles and never look at a second task after a prompt.',
 ['internal/interpolate/interpolate.go',R],[('ResolveVarsWithLocation','internal/interpolate/interpolate.go'),('executeTask builds the variables of one task',R)],['values substituted in the commands of each task'])

p('P11','Environment precedence: command over task over global over inherited',
 "A command sees each environment variable with the value configured on the command, else on its task, else globally, else the value inherited from the environment of bab; configured values are substituted exactly once. Nothing set for one command or task is visible to another, and variables are not exported unless configured.",
 ['configurations','histories'],'all assignments of one or two names to the four levels, with and without references, over sequences of commands, dependencies, references and parallel items',
 'Tests cover one name on three levels in one task.',
 ['internal/babfile/env.go',R],[('MergeEnvMaps and executeCommand','internal/babfile/env.go')],['environment of the child processes'])

p('P12','Commands run in the configured directory of their own Babfile',
 "A command runs in its own `dir`, else its task's, else its file's, else the directory of the Babfile that defines the task; relative directories are taken from the directory of that Babfile, wherever bab was started and however the Babfile was found, and may contain references. If the directory does not exist or is not a directory, the command does not run and the task fails.",
 ['configurations'],'all combinations of levels, relative, absolute, missing and file paths, start directories, and nested includes',
 'Tests check resolveDir on one level at a time.',
 [R,'internal/parser/include.go'],[('resolveDir',R),('resolveInclude','internal/parser/include.go')],['working directory of the child processes'])

p('P13','silent and output follow the most specific setting',
 "Whether a command line is announced follows `silent` of the command, else of the enclosing parallel block or task reference, else of the task, else of the file, default shown; whether its standard output and standard error are shown follows `output` in the same way, default shown. Neither setting changes what is executed or the exit status, hidden output never appears, and shown output is passed on unchanged to the stream the command wrote it to.",
 ['configurations'],'all combinations of unset, true and false on every level, for both settings, for commands, references and parallel blocks',
 'Tests call the two selection functions with fixed lists.',
 [R,PA],[('isSilent, isOutput and the override parameters',R)],['standard output and standard error of bab'])

p('P14','Conditions follow the documented syntax for every value',
 "A condition holds for `value == 'text'` exactly when both sides are equal after substitution, for `value != 'text'` exactly when they differ, and for a bare value exactly when it is neither blank nor the word false in any case; single and double quotes are equivalent. What a variable contains - nothing, quotes, operators, line breaks, other references - never changes the shape of the condition, and a condition that refers to an undefined variable never lets the guarded step run.",
 ['inputs'],'all conditions of the documented forms over a set of operands and values chosen to collide with the syntax',
 'Tests list some forty condition and value pairs with harmless values.',
 ['internal/condition/condition.go',R],[('Evaluate','internal/condition/condition.go')],['whether the guarded task or run item executes'])

p('P15','Platforms and conditions select exactly the right steps',
 "A run item, also inside a parallel block, executes exactly when its platform list is empty or names the current platform and its condition holds at the time it is reached, using the variables of its task and the answers given so far; a task-level condition decides before anything of the task or of its dependencies runs. If no run item applies to the platform and none was skipped by its condition, the task fails; a skipped item never affects the others.",
 ['configurations','programs'],'all combinations of platform lists and conditions on run items of every kind, on tasks, dependencies, references and parallel items',
 'Tests cover single items; parallel items and combinations are not tested.',
 [R,PA,'internal/babfile/run.go'],[('ShouldRunOnPlatform and shouldSkipRunItem',R),('selectParallelItems',PA)],['commands executed and exit status'])

p('P16','Including a Babfile does not change what its tasks do',
 "A task `t` of a Babfile included under a namespace `ns` is run by `bab ns:t` exactly as `bab t` would run it with that Babfile on its own - the same commands in the same order, directories, environment, variables, visibility and exit status - apart from the task names shown, as long as the including file sets no globals of its own; globals of the including file only fill in what the included file leaves unset. This holds through nested includes, for dependencies, references, parallel blocks and aliases, and included names never capture or shadow other tasks.",
 ['programs','configurations'],'enumerated included files with every run item kind and setting, nesting depth 1 and 2, compared with the same file run alone',
 'Tests check the prefixed names of a few parsed files; nothing compares behaviour.',
 ['internal/parser/include.go','internal/parser/parser.go',R],[('resolveInclude and the prefix functions','internal/parser/include.go')],['commands executed, their directory and environment, output, exit status'])

p('P17','Validation accepts exactly the runnable files',
 "A Babfile is accepted exactly when every dependency and task reference (also in parallel blocks and through includes) names an existing task, no task can reach itself through dependencies and references, no include path leads back to a file being included, and task names and aliases are unambiguous. A rejected file is rejected by every command, before anything has run; in an accepted file no task can fail at run time for an unknown task or a cycle; the verdict never depends on declaration order or on the run.",
 ['programs'],'all task graphs over a few tasks including cycles, self references, dangling references, parallel references, alias assignments, and include graphs',
 'Tests reject a few hand-written files; the DFS, collision and alias rules are about all graphs.',
 ['internal/parser/validate.go','internal/parser/parser.go','internal/parser/include.go'],[('validateAll','internal/parser/validate.go'),('parseFile visited set','internal/parser/parser.go')],['exit status of --validate, --list and of running any task'])

p('P18','Diagnostics point at the real cause',
 "Every reported problem of a Babfile names the file and line of the construct that causes it (for a syntax error, the place where the YAML reader found it), also in included files; a reported cycle is a chain in which each step really refers to the next and which closes on itself; a reported name is the one that is wrong, and a suggested name always exists. All independent dangling references of a file are reported together.",
 ['programs','inputs'],'each enumerated defect placed at each position of a file, alone and in pairs, in the root file and in an included file',
 'Tests compare a few messages by substring; none combines errors or checks the line of an included file.',
 ['internal/parser/validate.go','internal/parser/unmarshal.go','internal/errs/parse.go','internal/errs/suggest.go',R],[('errors with Path and Line','internal/errs/parse.go'),('FindSimilar','internal/errs/suggest.go')],['standard error of bab'])

p('P19','The meaning of a Babfile depends on its data, not on its YAML form',
 "Two Babfiles that are the same YAML data - written in block or flow style, with other quoting, comments, indentation, key order, or with anchors and aliases - behave identically. Every file the published JSON schema allows is read with exactly the values written in it, a value of the wrong type where a string, list or mapping is needed is rejected instead of ignored, and no input makes bab crash or hang.",
 ['inputs','programs'],'each construct of the file format rewritten in each presentation, each field with each YAML type, and all short byte strings over YAML syntax characters',
 'Tests parse a fixed set of files in one style.',
 ['internal/parser/unmarshal.go','internal/babfile/babfile.go','schema/babfile.schema.json'],[('unmarshalBabfile on YAML nodes','internal/parser/unmarshal.go')],['verdict and behaviour of bab on the file'])

p('P20','Names resolve the same way everywhere',
 "Every task name and alias that --list, shell completion and the picker offer can be run, an alias runs exactly its task, and every task of the file and its includes is offered under its full name. Completion offers exactly the names and aliases that start with what was typed; an unknown name runs nothing and fails.",
 ['programs','inputs'],'all small sets of tasks with names, namespaces, descriptions and aliases that are prefixes of each other, and all prefixes typed',
 'Tests complete one or two files with one or two prefixes.',
 ['cmd/complete.go','cmd/list.go','internal/parser/parser.go',R],[('completeTaskNames','cmd/complete.go'),('runList','cmd/list.go'),('buildAliasMap','internal/parser/parser.go')],['output of __complete and --list, commands executed'])

p('P21','The nearest Babfile is found, and -b is obeyed',
 "Without -b bab uses the Babfile in the nearest directory at or above the working directory that has one, and among several in one directory the first of Babfile, Babfile.yaml, Babfile.yml, babfile.yaml, babfile.yml; directories of those names do not count. With -b exactly the given file is used, whatever else exists, by every command; if there is none, bab fails without running anything.",
 ['configurations'],'all placements of the five names as files, directories or symbolic links over three levels of directories, and all ways to pass -b',
 'Tests cover one or two names in two levels.',
 ['internal/finder/finder.go',R],[('FindBabfile','internal/finder/finder.go'),('LoadTasks',R)],['which file\'s commands are executed'])

p('P22','The update cache survives crashes and bad content',
 "At every instant, and after a crash of bab or of the machine, a kill or a failed system call at any point of its writing, the update cache file holds either its previous complete content or the new complete content; a failed write leaves no temporary file behind, and files left by a crash are removed later without ever removing anything else. Whatever the cache file contains, bab runs tasks as if it were absent or valid - it never crashes, hangs or changes the result.",
 ['crash_points','fault_sequences','inputs'],'a kill and each error at every system call of the write, two writers, and enumerated cache contents',
 'Tests write and read the cache without faults.',
 ['internal/update/cache.go','internal/paths/paths.go'],[('saveCache: temporary file, fsync, rename','internal/update/cache.go'),('loadCache','internal/update/cache.go')],['content of the cache directory after each fault'])

p('P23','Update checks are rare, honest and harmless',
 "bab announces a new version exactly when the cached latest version is newer than its own, asks the server at most once per refresh and only when the cached answer is missing or a day old, uses If-None-Match only with the cached tag, and keeps the cached answer unless a well-formed 200 or 304 answer arrives. With BAB_NO_UPDATE_CHECK=1, in CI, or for development builds it neither asks nor announces; no answer, error or delay of the server changes the outcome of the command.",
 ['histories','fault_sequences','inputs'],'all short histories of cache state, time since the check, server answer and environment settings',
 'Tests cover the comparison and some cache states with no server.',
 ['internal/update/update.go','internal/update/cache.go','cmd/root.go'],[('StartBackgroundRefresh, CheckCached, ForceCheck','internal/update/update.go')],['requests sent, cache content, warnings printed'])

p('P24','The picker selects what it shows',
 "After every sequence of keys the picker shows exactly the tasks matching the typed text (a task whose name or alias was typed in full comes first, the rest in an order that depends on the text alone), keeps its cursor on a shown task, and Enter yields the task under the cursor, or none if nothing matches; Escape, Ctrl+C and a signal yield none and run nothing. It never panics, at any terminal size.",
 ['histories'],'all key sequences up to a length, breadth first over the reachable states of the model, for several task sets and window sizes',
 'The picker has no tests.',
 ['internal/tui/picker/update.go','internal/tui/picker/match.go','internal/tui/picker/model.go','internal/tui/picker/view.go'],[('Model.Update','internal/tui/picker/update.go'),('match','internal/tui/picker/match.go')],['view and selection of the model'])

p('P25','The parallel views show every item with its state and its own output',
 "In grouped and tabs mode, after every sequence of item events, keys and window sizes the view never panics, shows every top-level item in order with its true state (waiting, running, done, failed, cancelled), and shows an item's output only under that item and in order: in grouped mode its most recent five lines, in tabs mode all lines since it last opened a nested block, following the end and reachable by scrolling (a reader who scrolled back is not moved by new lines). Nested items are shown under their parent while their block runs and go when it ends. Ctrl+C or a signal cancels the work once, ends bab and its commands, and leaves the terminal as it was; once everything has ended the view closes.",
 ['histories'],'all sequences of messages and keys up to a length over two or three items, breadth first over the states of the models',
 'The parallel models have no tests.',
 ['internal/tui/parallel.go','internal/tui/parallel_grouped.go','internal/tui/parallel_tabs.go'],[('NewGroupedModel and NewTabsModel Update and View','internal/tui/parallel_grouped.go')],['view of the model, commands it returns'])

p('P26','Prompt answers are what the user gave and obey the declared limits',
 "On a terminal a prompt stores exactly the answer given, losing no key typed while it is shown, accepts it only if it satisfies the declared options, pattern, minimum, maximum and confirmation, and starts from the declared default; a password is not shown. A prompt cancelled by Ctrl+C fails the task, a signal ends bab, nothing later runs, and the terminal is left as it was. Without a terminal a prompt yields its default in the documented form, and fails if it has none or is a password; a prompt is never skipped silently.",
 ['inputs','histories'],'all prompt types with all combinations of attributes without a terminal, and enumerated key sequences on a pseudo-terminal',
 'There are no tests of prompts beyond parsing.',
 ['internal/tui/prompt.go',R],[('RunPrompt and handleNonInteractive','internal/tui/prompt.go')],['value substituted into later commands, exit status'])

p('P27','The installer installs only a verified release',
 "install.sh puts a binary in place only if every download, the checksum comparison and the unpacking succeeded for exactly the archive it asked for; in every other case it exits with a non-zero status and leaves any installed binary as it was. It leaves no temporary files behind and never writes outside the chosen directory.",
 ['fault_sequences'],'a failure or corruption at each external command of the script, alone and in pairs, for each available download and checksum tool',
 'install.sh has no tests.',
 ['install.sh'],[('hash_sha256_verify and execute','install.sh')],['content of the installation directory, exit status'])

p('P28','How a run is watched does not change it',
 "The same task of the same file runs the same steps, in the same order and with the same working directories and environment, and ends with the same exit status, however its output is watched: with or without --verbose, whether standard input, output and error are a terminal of any size, a file, a pipe (however slowly it is read) or /dev/null, closed or on a full disk (as long as the commands themselves write nothing there), and whatever TERM, NO_COLOR, COLUMNS, LANG and similar variables say. The order of the items of one parallel block is free. A failure always comes with a message where there is someone to read it.",
 ['configurations'],'every kind of step and every parallel mode, watched through all combinations of places for standard input, output and error, terminal sizes, verbosity and surroundings',
 'Tests run in one process with one kind of output; the views, the log and the prefix writer take other paths on a terminal, a pipe and a failing sink.',
 [R,'internal/runner/parallel.go','internal/tui/parallel.go','cmd/root.go','internal/output/output.go'],[('executeParallel choosing the view','internal/runner/parallel.go'),('executeCommand','internal/runner/runner.go')],['commands run with their directory and environment, exit status'])

p('P29','Commands do what they do in a shell',
 "The commands of a task that run one after another - in its steps, its dependencies and the tasks it refers to - do exactly what the same texts do when each is given to sh -c by hand: every text reaches the shell byte for byte; standard input, output and error, further open descriptors, the umask and limits are the ones bab was started with, nothing of the input is taken away or kept from the next command, every byte written arrives unchanged and in order, and nothing one command leaves in its shell (directory, variables) reaches the next. With silent set bab itself writes nothing in between. A command with output set to false writes nowhere and reads an empty input. The items of a parallel block read an empty input.",
 ['programs','inputs'],'all pairs and selected triples over an alphabet of commands, in every arrangement of tasks and under several starting conditions, against a plain shell; texts of every character and length',
 'Tests run a few echo commands; nothing compares with a shell or looks at input, descriptors or bytes.',
 [R],[('runCommandWithWriters','internal/runner/runner.go'),('shellCommand','internal/runner/runner.go')],['output and error bytes, remaining input, files, exit status, arguments of the shell'])

p('P30','What bab reports is what it did',
 "The lines bab itself writes during a run tell what it runs: every task, dependency and command is announced, by its name or text with variables in it replaced, exactly when it is run and neither silent nor skipped - once, after what ran before it and before its own first step and the first output of its command; what is skipped, already done or never reached is not announced. The message of a log step appears at its place, with its level and its text as written, whether or not the task is silent; debug messages of a sequence only with --verbose. A failure is reported last, once, by a message that names the task that failed, and the exit status is 1. Nothing else is written. The lines of a parallel block carry its items' labels and may mix; a grouped or tabs block on a terminal leaves one line that lists every item in the order written with its true outcome, unless the block is silent.",
 ['histories','programs'],'every graph of three and four tasks over dependencies and references with a skipped or failing task and all settings of silent; messages of every level; blocks of every mode; the whole report of the built program, line by line',
 'Tests check a handful of rendered lines; none compares a whole report with what ran.',
 [R],[('Task','internal/output/output.go'),('RenderParallelDone','internal/output/output.go'),('executeLog','internal/runner/runner.go')],['every line written to one file by bab and its commands','exit status'])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P),'properties')
