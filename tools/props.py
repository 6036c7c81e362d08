#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB, SOCK, TPL = 'sudo_pair/src/lib.rs', 'sudo_pair/src/socket.rs', 'sudo_pair/src/template.rs'
CORE, MAP, TR, SET, USR, CMD = ['sudo_plugin/src/' + x for x in ('core.rs', 'options/option_map.rs', 'options/traits.rs', 'options/settings.rs', 'options/user_info.rs', 'options/command_info.rs')]
PF, IOENV, IOPL, IOST, VER, ERR, PERR, MAC = ['sudo_plugin/src/' + x for x in ('output/print_facility.rs', 'plugin/io_env.rs', 'plugin/io_plugin.rs', 'plugin/io_state.rs', 'version.rs', 'errors.rs', 'errors.rs', 'macros.rs')]
PAIRERR = 'sudo_pair/src/errors.rs'
TTY = 'sudo_plugin/src/output/tty.rs'
SYS = 'sudo_plugin-sys/src/lib.rs'
P = []
def p(id, title, statement, over, text, why, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=sorted({m[1].split(':')[0] for m in mech}), mechanism=[dict(name=m[0], where=m[1]) for m in mech])))

NOTEST = 'The only tests in sudo_pair are of template expansion; '
p('C01', 'Sessions are exempt from pairing exactly when a documented rule says so',
  'A sudo session goes ahead without a pair if and only if the invoking user is the user sudo runs as, or user and primary group do not change (effective ids of the command), or the command is the configured approval command, or the policy asks for none of terminal output, standard output and standard error to be logged, or one of the user\'s groups is exempted, or none of the command\'s groups (effective gid plus its supplementary groups) is enforced. Every other session either waits for a pair or is denied. An exempt session shows no prompt.',
  ['inputs', 'configurations'], 'All user, group and target ids, group lists, exempted and enforced gid lists, logging hints and command paths.',
  NOTEST + 'nothing runs the exemption rules, whose inputs multiply.',
  [('exemption rules', LIB + ': SudoPair::is_exempt and the predicates it calls'), ('groups of the command', IOENV + ': IoEnv::runas_gids'), ('option defaults', LIB + ': PluginOptions::from')])
p('C02', 'A session is approved only by a y or Y as the first byte the pair sends',
  'A session that needs a pair is allowed if the first byte the connected pair sends is y or Y, and denied if it is anything else, if the pair disconnects without answering, or if Ctrl-C interrupts the wait. Nothing sent after the first byte, and nothing that happened before the connection, changes that. A denied session leaves the pair\'s connection closed.',
  ['inputs', 'fault_sequences'], 'All byte strings a pair can send, any connection behaviour, short writes, Ctrl-C and single system call failures.',
  NOTEST + 'no test connects a pair.',
  [('answer', LIB + ': SudoPair::remote_pair_prompt'), ('connection', SOCK + ': Socket::open, impl Read/Write/Drop for Socket'), ('status', PAIRERR + ': From<Error> for OpenStatus')])
p('C03', 'The approval socket belongs to, and is writable by, exactly who must approve',
  'While the plugin waits for a pair, the socket is owned by the command\'s effective user and writable by that owner alone if the session changes user; if the session only changes to an explicitly requested group it is owned by root (whoever sudo runs as), its group is the command\'s effective group and it is writable by that group alone. This does not depend on the umask.',
  ['inputs', 'configurations'], 'All invoking and target ids (real and effective), with or without an explicit group, any umask.',
  NOTEST + 'socket ownership is not tested at all.',
  [('owner, group, mode', LIB + ': SudoPair::socket_uid, socket_gid, socket_mode'), ('applied', SOCK + ': Socket::open')])
p('C04', 'At no instant can anyone but the required approver connect to the socket',
  'From the moment the approval socket exists until it is gone, its owner, group and mode never let anyone write to it except root and the user (or, for group sessions, the group) whose approval is required, even between two system calls and even if one of them fails. In particular the invoking user cannot connect to approve their own session.',
  ['inputs', 'schedules', 'fault_sequences'], 'Every point between the plugin\'s system calls, any ids, any umask, any failing system call.',
  'A race window of a few instructions, or one that opens only when chmod fails, is out of reach of a test that looks at the final state.',
  [('umask around bind, chown and chmod', SOCK + ': Socket::open')])
p('C05', 'The socket directory must be a directory only the plugin\'s user can change',
  'A session that needs a pair goes ahead only if the directory of the socket exists, is a directory, is owned by the effective user and is writable by neither group nor others; otherwise it is denied and no socket is created. A directory that satisfies this is accepted whatever its other mode bits.',
  ['inputs', 'configurations', 'fault_sequences'], 'Every owner, mode and kind of the directory, every effective uid, failing system calls.',
  NOTEST + 'the check of the directory is not tested.',
  [('enforcement', SOCK + ': Socket::enforce_ownership')])
p('C06', 'Only stale sockets are ever deleted to make room for the new one',
  'If something already exists at the path of the socket, it is deleted only if it is itself a socket, and then replaced by a fresh one; anything else (file, directory, device, link) is left untouched and the session is denied. This holds even when system calls fail.',
  ['inputs', 'fault_sequences'], 'Every kind, owner and mode of what is at the path, any failing system call.',
  NOTEST + 'a test for deletion would need a file system with each kind of obstacle and failing calls.',
  [('unlink of sockets only', SOCK + ': Socket::unlink')])
p('C07', 'Opening a session leaves no socket, descriptor, umask or signal change behind',
  'However the opening of a session ends (approval, refusal, error, Ctrl-C), the process\'s umask and SIGINT disposition are what they were, and the socket is gone from the file system unless removing it failed. A refused session leaves no descriptor open, and an approved one leaves none open after it is closed.',
  ['inputs', 'fault_sequences'], 'Any umask and signal disposition, any answer, Ctrl-C at any wait, any failing system call.',
  'Each error path would need its own test with an injected failure; there are none.',
  [('restoration on every path', SOCK + ': Socket::open, Socket::drop, ctrl_c_aborts_syscalls'), ('release', LIB + ': SudoPair::close, Drop for SudoPair; ' + SOCK + ': Socket::close')])
p('C08', 'The socket is at SOCKET_DIR/UID.PID.sock for the invoking uid and sudo\'s pid',
  'The socket of a session is created at the path made of the configured socket directory (default /var/run/sudo_pair), the real uid of the invoking user and the pid of sudo, both in decimal, and the ending .sock, so that the approval command can find it.',
  ['inputs', 'configurations'], 'All uids, pids and socket directories.',
  NOTEST + 'the path is not tested.',
  [('path', LIB + ': SudoPair::socket_path')])
p('C09', 'The pair sees all output unchanged and in order, or the session ends',
  'Every byte a paired session prints on its terminal, standard output or standard error reaches the pair, unchanged, once and in order, before the plugin lets it through, even if the connection takes only part of a write. If it cannot be delivered the output is refused, which ends the session, and it stays refused for the rest of the session.',
  ['inputs', 'histories', 'fault_sequences'], 'All sequences of output on all channels, all splits of writes, a write failing at any point.',
  NOTEST + 'no test writes output, and split or failing writes need a controlled socket.',
  [('mirroring', LIB + ': SudoPair::log_output, log_ttyout, log_stdout, log_stderr'), ('socket writes', SOCK + ': impl Write for Socket'), ('status', PAIRERR + ': From<Error> for LogStatus')])
p('C10', 'Window size changes reach the pair\'s terminal as the resize sequence',
  'When the user\'s terminal is resized in a paired session, the pair is sent exactly ESC [ 8 ; LINES ; COLUMNS t with the new size in decimal, and the change is accepted.',
  ['inputs'], 'All numbers of lines and columns.',
  NOTEST + 'resizing is not tested.',
  [('escape sequence', LIB + ': SudoPair::change_winsize'), ('callback', CORE + ': change_winsize')])
p('C11', 'Nothing can be piped into a paired session',
  'In a session that needed a pair every piece of piped standard input is refused and the user is told, whatever logging the policy asked for; in an exempt session it is accepted. Terminal input is always accepted, and no input is ever shown to the pair.',
  ['inputs', 'configurations'], 'All input, all combinations of logging hints, every reason for exemption.',
  NOTEST + 'the interplay of hints and exemption is not tested.',
  [('refusal', LIB + ': SudoPair::log_stdin'), ('hints', CORE + ': log_stdin')])
p('C12', 'Ctrl-C ends the wait for a pair at any point',
  'If Ctrl-C is pressed while the plugin waits for a pair to connect or to answer, the wait ends and the session is denied, whatever the process\'s SIGINT disposition was; no pair is let in after that, and the disposition is put back as it was.',
  ['schedules', 'inputs'], 'Ctrl-C during any blocking call, any previous disposition.',
  'Needs a signal in the middle of a blocking call, with flags that decide whether it is restarted.',
  [('interruptible waits', SOCK + ': Socket::open (select before accept), ctrl_c_aborts_syscalls (SA_RESTART)')])
p('C13', 'A session asking for another user and an explicit group is always denied',
  'A session that needs a pair, changes the user and also names a group explicitly (sudo -u X -g Y) is denied with an explanation before anybody is asked; it never gets to a pair, whatever bytes the name of the group consists of. Sessions that are exempt may use both.',
  ['inputs'], 'All ids, group names and exemption settings.',
  NOTEST + 'the rule is not tested.',
  [('rule', LIB + ': SudoPair::is_sudoing_to_user_and_group, is_sudoing_to_explicit_group')])
p('C14', 'Any order of calls sudo can make keeps sessions apart and refuses what has none',
  'In any legal order of opening (paired, exempt or version only), output, input, resizing and closing, each session follows its own pair\'s answer and shows that pair only its own data; output, input and resizing without an open session are refused; closing a paired session hangs up on its pair. Nothing is left behind after the last close.',
  ['histories', 'inputs'], 'All sequences of calls up to the bound, all answers and output.',
  'Tests do not call the plugin at all, let alone in unusual orders or twice.',
  [('state between calls', IOST + ': IoState'), ('callbacks', CORE + ': open, close, log_*, change_winsize'), ('session', LIB + ': impl IoPlugin for SudoPair')])
p('C15', 'sudo -V needs no pair, and nothing else can pass for it',
  'If sudo names no command (sudo -V) the plugin opens without asking anybody, prints no prompt and can show its version. If it names a command, of whatever bytes, that needs a pair, the session never goes ahead without one.',
  ['inputs'], 'All command paths, including ones that are not UTF-8.',
  NOTEST + 'no test opens the plugin with and without a command.',
  [('version only', CORE + ': open'), ('command', CMD + ': CommandInfo::try_from')])
p('C16', 'The waiting user is shown exactly the configured prompt; trouble is harmless',
  'Before the plugin waits for a pair, the user is shown exactly the expansion of the user prompt template (a default if there is none), on their terminal if it can be written and otherwise on standard error through sudo, byte for byte. No failure to read the template or to show the prompt decides the session.',
  ['inputs', 'fault_sequences'], 'All templates and expanded values, with and without a terminal, failing system calls, failing or missing print function.',
  NOTEST + 'how the prompt is shown is not tested, nor any failure.',
  [('prompt', LIB + ': SudoPair::local_pair_prompt'), ('terminal', TTY + ': Tty'), ('fallback', PF + ': impl Write for PrintFacility')])
p('C17', 'A template expands to its text with each %-letter replaced once',
  'Expanding a template replaces each escape character followed by a defined letter by that letter\'s value, replaces the escape character followed by any other byte by that byte, drops a lone escape at the end, and keeps everything else; values are inserted verbatim and never expanded again.',
  ['inputs'], 'All templates, values, letters and escape characters.',
  'The tests expand a dozen fixed templates; the property is about all of them.',
  [('expansion', TPL + ': Spec::expand')])
p('C18', 'The pair is shown exactly the configured prompt with the facts of the session',
  'Before a pair can answer it is sent exactly the expansion of the pair prompt template, or of the default one if the file cannot be read, and nothing else; each % expansion is the documented fact of this session: approval command and its name, command line, working directory of the command, host, terminal size, invoking gid, uid and user name, and pid of sudo. After the answer the pair is sent that byte back and a newline.',
  ['inputs', 'configurations', 'fault_sequences'], 'All templates and session facts, an unreadable template, failing system calls.',
  NOTEST + 'the meaning of each expansion in a real session is not tested.',
  [('prompt', LIB + ': SudoPair::remote_pair_prompt, template_spec'), ('working directory', IOENV + ': IoEnv::cwd')])
p('C19', 'Option lists mean exactly the key=value strings sudo passed',
  'Looking up a key in a list sudo passed yields the bytes after the first = of the last entry whose part before it is that key; an entry without = is its own key and value; keys that were not passed have no value, and no list at all is an empty one. Values and keys may be any bytes.',
  ['inputs'], 'All lists of entries and all keys.',
  'The tests try eight fixed lists.',
  [('parsing', MAP + ': OptionMap::from_raw, get_bytes')])
p('C20', 'Option values are read as what they spell, or not at all',
  'A value is read as an integer exactly if it is a decimal number (optionally signed with + or, for signed types, -) within the range of the type, and then as that number; as a boolean exactly if it is true or false; as a string or path unchanged; and as a comma-separated list or set exactly if every element can be read, with exactly those elements in order. Everything else is rejected without side effects.',
  ['inputs'], 'All byte strings and all integer types.',
  'The tests read about twenty values; the interesting ones are at the limits of each type.',
  [('typed access', MAP + ': OptionMap::get, get_str'), ('conversions', TR + ': FromSudoOption, FromSudoOptionList')])
p('C21', 'Each sudo setting fills its own field; malformed ones fall back or fail',
  'Each setting sudo passes about its own invocation, the user and the command is made available under its own name with the value passed and influences no other, except that the effective ids of the command default to the real ones; settings that are not passed have their documented defaults. A malformed optional setting is as if it were absent, a malformed or missing required one makes the session fail, and unknown settings are ignored.',
  ['inputs', 'configurations'], 'Every known setting with any value, and unknown ones.',
  'No test constructs these structures; mixing up two of 80 settings goes unnoticed.',
  [('settings', SET + ': Settings::try_from'), ('user', USR + ': UserInfo::try_from'), ('command', CMD + ': CommandInfo::try_from')])
p('C22', 'API versions older than 1.9 are refused, all others accepted and passed on',
  'A plugin opens exactly if the sudo plugin API version it is offered is 1.9 or newer (by major, then minor number), is denied with an explanation otherwise, and sees the version it was offered. Packing a version into and out of its number loses nothing.',
  ['inputs'], 'Every 32-bit version number.',
  'Doc tests try single values; the comparison is not tested.',
  [('minimum', IOENV + ': IoEnv::new'), ('comparison', VER + ': Version::check'), ('packing', SYS + ': sudo_api_mkversion, sudo_api_version_get_major, _get_minor')])
p('C23', 'Every sudo callback reaches its own plugin method once; its outcome gets back',
  'Each callback calls exactly the plugin method of the same name once, with sudo\'s own arguments and buffer, and returns the status the plugin\'s result stands for; errors are also shown to the user. A log callback that sudo did not ask to be logged calls nothing and is accepted, unless the plugin ignores such hints; close ends the plugin exactly once, however often it is called.',
  ['inputs', 'configurations'], 'All buffers, sizes and statuses, every outcome of the method, all hints.',
  'The callback layer has no tests.',
  [('callbacks', CORE + ': open, close, show_version, log_*, change_winsize'), ('table', MAC + ': sudo_io_plugin!'), ('statuses', ERR + ': OpenStatus, LogStatus')])
p('C24', 'A panic in a plugin is reported to sudo as a refusal and never unwinds into it',
  'If a plugin method panics in any callback, sudo still gets an answer, and the answer is a refusal of the session, output or request in question; later callbacks are answered too, and a session opened after close is served with its own facts.',
  ['histories', 'inputs'], 'A panic in any callback, in any sequence of callbacks up to the bound.',
  'The callback layer has no tests.',
  [('containment', CORE + ': catch_unwind_open, catch_unwind_log, close'), ('state', 'sudo_plugin/src/plugin/io_state.rs: IoState::drop')])
p('C25', 'Text a plugin prints reaches the user byte for byte, or the plugin is told',
  'Text printed through sudo\'s print function appears exactly as given, whatever bytes it contains, on the stream it was meant for, and a line printed as such is preceded by the plugin\'s name and ended. If the function fails, is missing, or cannot carry the text, the plugin gets an error and nothing crashes.',
  ['inputs', 'fault_sequences'], 'All texts, both streams, a failing or missing print function.',
  'Printing has no tests.',
  [('printing', PF + ': PrintFacility::new, impl Write'), ('lines', PF + ': write_line')])
p('C26', 'No value of any setting can crash the plugin or leave sudo without an answer',
  'Whatever bytes any one setting of the four lists sudo passes contains, opening the plugin ends with the session allowed or denied (and the user told why if it is denied), further callbacks are answered, and closing leaves no socket, descriptor or umask change behind.',
  ['inputs'], 'Any bytes in any one setting, known or not.',
  'Robustness over all byte strings in 80 settings; tests use well-formed ones.',
  [('parsing', MAP + ': OptionMap::from_raw'), ('conversions', TR + ': FromSudoOption'), ('addresses', SET + ': NetAddr'), ('session', LIB + ': SudoPair::open')])
p('C27', 'The command line shown is the one that was typed',
  'The reconstructed command line consists of the name sudo was invoked as, a flag for each setting in effect (with its value where it has one), in a fixed documented order, and the arguments of the command, separated by single blanks; nothing is left out, added or altered. The flag for editing is not repeated if the program is sudoedit.',
  ['inputs', 'configurations'], 'All combinations of flags, all arguments of any bytes.',
  'Eighteen flags in all combinations; there is no test.',
  [('reconstruction', IOENV + ': IoEnv::invocation'), ('flags', SET + ': Settings::flags')])
p('C28', 'The groups of a command are its effective gid and its supplementary groups',
  'The set of groups a command will run with is its effective gid plus the supplementary groups sudo announced or, if the user\'s groups are preserved, the invoking user\'s groups; nothing else is in it and nothing is missing.',
  ['inputs'], 'All group lists and gids.',
  'There is no test.',
  [('groups', IOENV + ': IoEnv::runas_gids')])
p('C29', 'A refused user is told which rule refused them',
  'Whenever a session, its output or its input is refused, the user is told on standard error, on a line that names the plugin and gives the reason that applies: declined by the pair, failed communication, both -u and -g given, session ended, or input redirected.',
  ['inputs', 'configurations'], 'Each reason for refusal, any declining answer.',
  'There is no test of messages.',
  [('messages', PAIRERR + ': ErrorKind'), ('display', CORE + ': open, log_*; ' + PF + ': write_error')])
p('C30', 'Options that are not given have their documented defaults',
  'An option missing from the plugin\'s line in sudo.conf has its documented default, independently of the others: approval command /usr/bin/sudo_approve, prompts /etc/sudo_pair.prompt.user and /etc/sudo_pair.prompt.pair, sockets in /var/run/sudo_pair, only gid 0 enforced, no gid exempted. Options that are given replace just their own default, and unknown ones are ignored.',
  ['configurations', 'inputs'], 'No option, each option alone, unknown options, any target group.',
  'There is no test of the plugin\'s options.',
  [('defaults', LIB + ': PluginOptions::from, DEFAULT_*')])
p('C31', 'Network address lists are read entry by entry and never take the session down',
  'If every entry of the list of network addresses is a well-formed ADDRESS/MASK pair, the list is read as exactly those pairs in order; if any entry is malformed, whatever its bytes, the list counts as not given, and neither makes the plugin panic nor the other settings unavailable.',
  ['inputs'], 'All address lists.',
  'There is no test of address lists.',
  [('addresses', SET + ': NetAddr::from_sudo_option')])
p('C32', 'An error is shown with each of its causes exactly once',
  'An error is shown as its own message followed by those of its causes, outermost first, each on its own line and exactly once, and showing it ends.',
  ['inputs', 'fault_sequences'], 'Errors with any number of causes, a failing print function.',
  'There is no test.',
  [('display', PF + ': PrintFacility::write_error')])
p('C33', 'A session without a required setting is denied and the setting named',
  'If one of the settings a session cannot do without is missing, the session is denied and the user is told which one is missing.',
  ['inputs', 'configurations'], 'Each required setting missing.',
  'There is no test.',
  [('required settings', SET + ': Settings::try_from; ' + USR + ': UserInfo::try_from'), ('error', ERR + ': Error')])
p('C34', 'The exported table is one sudo can load',
  'The table a plugin exports is that of an I/O plugin of an API version between 1.9 and 1.17 with every implemented callback in the slot of sudo\'s own header and all others empty.',
  ['programs'], 'The plugin of this repository and plugins defined with its macro.',
  'The layout tests of the bindings abort under current compilers.',
  [('table', MAC + ': sudo_io_plugin!'), ('layout', 'sudo_plugin-sys/src/bindings/sudo_plugin.x86-64.rs: io_plugin')])
p('C35', 'System failures never open a session that no pair approved',
  'If any system call fails while a session that needs a pair is being opened, sudo gets an answer, and the session is allowed only if a pair connected and really answered y or Y; the safety rules for the socket and its directory hold all the same.',
  ['fault_sequences', 'inputs'], 'Any failing system call (any two in the thorough tier), any answer.',
  'Failures cannot be injected by the existing tests.',
  [('error paths', SOCK + ': Socket::open'), ('session', LIB + ': SudoPair::remote_pair_connect, remote_pair_prompt')])
p('C36', 'The approval command never lets users approve their own sessions',
  'The approval command connects its user to the session of the given uid and pid only if that uid is not the uid of the user who ran it (before sudo), for every uid, pid, owner and mode of the socket; it connects as somebody who may write to the socket and otherwise gives up. Arguments that are not two numbers are refused, and nothing in an argument is ever run as code.',
  ['inputs', 'configurations'], 'All uids, pids, owners, groups and modes.',
  'There is no test of the approval command.',
  [('self-approval', 'sample/bin/sudo_approve: main'), ('connection', 'sample/bin/sudo_approve: pair'), ('arguments', 'sample/bin/sudo_approve: top level, usage')])

def main():
    ids = [x['id'] for x in P]
    assert len(ids) == len(set(ids))
    for x in P: assert len(x['title']) <= 80, (x['id'], len(x['title']))
    P.sort(key=lambda x: x['id'])
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P: f.write(json.dumps(x) + '\n')
    import plan
    na = {x['property'] for x in NA}
    ids = [i for i in ids if i not in na]
    assert sorted(ids) == sorted(plan.PLAN), set(ids) ^ set(plan.PLAN)
    checks = [dict(property=i, quick_cmd='python3 tools/check.py %s quick' % i, thorough_cmd='python3 tools/check.py %s thorough' % i,
        technique='symbolic execution of the bash source with an SMT solver (bounded)' if plan.PLAN[i].get('shell') else 'symbolic execution of the compiled LLVM IR with an SMT solver (bounded)', level='model_checking',
        level_note=('Every path of the script within the bounds is decided by the solver, on its current source; bounds: ' + plan.PLAN[i]['bounds'] + '. Trusted: the bash interpreter in shell/ and its model of the programs run (paths and counterexamples are replayed with the real bash).') if plan.PLAN[i].get('shell') else 'Every execution within the bounds is decided by the solver, on the IR rustc emits for the current sources; bounds: ' + plan.PLAN[i]['bounds'] + '. Trusted: the IR interpreter and the model of libc and sudo in /verif (witnesses and counterexamples are replayed natively).')
        for i in sorted(ids)]
    json.dump(dict(version=1, setup_cmd='python3 tools/check.py setup', checks=checks, not_applicable=NA,
        notes='Own symbolic executor for LLVM IR (engine/, on libz3) over the real plugin compiled together with a model of the OS (harness/), and one for bash (shell/). See DESIGN.md.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
NA = []
if __name__ == '__main__': main()
