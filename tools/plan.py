"""What is executed symbolically for each property, and within what bounds.

A job is (harness, [arguments], {options}).  The harnesses are in
/verif/harness/src; the comment above each says what its arguments mean.
"""
def J(s, **o):
    p = s.split()
    return (p[0], p[1:], o)
def JJ(t): return [J(x.strip()) for x in t.strip().split(';') if x.strip()]

COMMON_ASSUMPTIONS = [
    'The LLVM IR that rustc emits for /repo (release profile: no debug assertions, no overflow checks, panic=unwind), std and the dependencies is what runs; the engine (/verif/engine) interprets it faithfully. Every witness and every counterexample is replayed on the natively compiled code, and engine self-tests compare its arithmetic with the machine on each run.',
    'libc and sudo are replaced by the model in /verif/harness/src/world.rs and session.rs: a flat file system, one pair, sequential system calls. System calls the model does not know stop a path and make the check inconclusive.',
    'std\'s randomly keyed hasher is replaced by a constant hash (iteration order of a hash map is one of the legal ones); SipHash itself is not examined.',
    'Logging is built as by default (no syslog, no journald).',
    'x86-64 Linux; 64-bit pointers.',
]
FAULTS = 'any one counted system call (open, read, write, stat, unlink, socket, bind, listen, chown, chmod, select, accept, recv, send, shutdown, sigaction) fails with any errno'

# life MASK MODE KIND: whole sessions under every circumstance
WHO, ANSWER, RIGHTS, INSTANT, PATH, CLEAN, USERP, PAIRP, MIRROR, RESIZE, STDIN_, BOTH, REQ, VERSION, WHY, DIRS, TAKEN, CTRLC, FAULT, BEFORE, AFTER, CMDLINE = (1 << i for i in range(22))
def life(mask, kinds, modes='0 3'): return [('life', [str(mask), m, k], {}) for m in modes.split() for k in str(kinds).split()]
def pairs(mask, kinds, parts=8): return [('life', [str(mask), '2', k, str(i), str(parts)], {}) for k in str(kinds).split() for i in range(parts)]
def twice(modes='0', kinds='0 1 4 5'): return [('life', [str(m), x, k, str(b)], {}) for m in (BEFORE | WHO | ANSWER | RIGHTS | PATH | USERP | PAIRP | MIRROR | STDIN_ | CLEAN, AFTER) for b in range(6) for x in modes.split() for k in kinds.split()]
LIFE = 'whole sessions with each of some 330 further circumstances (settings, facts, options, arguments, ids at powers of two, lists of 40 and 300 entries, values of up to 70000 bytes, malformed values, terminals, templates, API versions, short reads and writes), alone and on top of some 60 ordinary ones (thorough: any two of them, and all but one of the ordinary ones), with every answer byte, umask and output byte'

PLAN = {
'C01': dict(
    quick=JJ('exempt 1 1 1 1 1 0 0; exempt 1 2 2 2 2 0 0; exempt 1 1 1 1 1 1 0; exempt 1 2 0 1 1 0 0; exempt 1 1 1 0 0 0 0; exempt 2 1 1 1 1 0 0; exempt 11 1 1 0 0 0 0; exempt 11 1 1 1 1 1 0; exempt 11 2 1 1 1 0 0; approval_path 0 3 0; approval_path 1 1 0; approval_path 1 1 1; approval_path 1 1 2; approval_path 1 1 4; approval_path 2 1 1; approval_path 2 2 0; approval_path 3 0 1; approval_path 3 1 1; approval_path 4 2 1; approval_path 4 4 1; bystander 0 3; bystander 1 3; bystander 2 6; bystander 3 6; bystander 4 16; bystander 5 16; bystander 6 3; bystander 7 6; bystander 8 6') + life(WHO, '0 1 2 3 4 5 6 7 8'),
    thorough=JJ('exempt 1 3 3 3 2 0 0; exempt 1 2 2 2 2 1 0; exempt 2 2 2 2 2 0 0; exempt 3 1 1 1 1 1 0; exempt 1 3 0 2 2 0 0; exempt 1 1 1 0 0 1 0; exempt 2 1 1 1 1 1 0; exempt 1 4 1 1 4 0 0; exempt 11 1 1 0 0 0 0; exempt 11 1 1 1 1 1 0; exempt 11 2 1 1 1 0 0; exempt 12 1 1 1 1 1 0; exempt 11 2 2 2 2 1 0; approval_path 0 4 0; approval_path 0 5 3; approval_path 1 1 0; approval_path 1 1 1; approval_path 1 1 2; approval_path 1 1 4; approval_path 2 2 1; approval_path 2 3 0; approval_path 3 0 1; approval_path 3 1 1; approval_path 4 3 2; approval_path 4 5 1; bystander 0 4; bystander 1 4; bystander 2 7; bystander 3 6; bystander 4 24; bystander 5 24; bystander 6 4; bystander 7 8; bystander 8 8') + life(WHO, '0 1 2 3 4 5 6 7 8', '0 1 3') + pairs(WHO, '0 1'),
    covers=['exempt', 'pairing required'],
    bounds='ids of 1-2 decimal digits (thorough: 3) and any one of them within 100 of a power of two, up to 2 user groups, 2 target groups, 2 enforced and 2 exempted gids (thorough: 4), logging hints, command path free in one byte; any command of 3 bytes (thorough: 5), any one byte of the approval command changed, any one or two (thorough: three) added, one left out, any other directory of 4 bytes (thorough: 5); any ASCII value of up to 3 bytes (thorough: 4) of every setting of the three lists that the rules do not mention, of 6 bytes of the options\' paths, of command and approval command, any unknown entry of 16 bytes (thorough: 24) in any list, any environment variable of that length, any argument of 3 bytes (thorough: 4)' + '; ' + LIFE),
'C02': dict(
    quick=JJ('approve 0 0 0; approve 1 0 0; approve 3 0 0; approve 1 0 1; approve 1 1 0') + life(ANSWER, '0 1'),
    thorough=JJ('approve 0 0 0; approve 1 0 0; approve 3 0 0; approve 8 0 0; approve 2 1 1; approve 1 2 0') + life(ANSWER, '0 1', '0 1 3') + pairs(ANSWER, '0'),
    covers=['approved', 'declined'],
    bounds='pair sends 0, 1 or 3 bytes (thorough: 8) of any value, connects or not, takes 1, 7 or all bytes per write; Ctrl-C at any blocking call; ' + FAULTS + '; ' + LIFE),
'C03': dict(
    quick=JJ('socket_rights 1 0 0 0; socket_rights 1 0 1 0; socket_rights 1 1 0 0; socket_rights 1 1 1 0; socket_rights 2 0 1 0; socket_rights 2 1 1 0; socket_rights 11 0 1 0; socket_rights 11 1 1 0') + life(RIGHTS, '0 1'),
    thorough=JJ('socket_rights 3 0 1 0; socket_rights 3 1 1 0; socket_rights 2 0 0 0; socket_rights 2 1 0 0; socket_rights 1 1 1 0; socket_rights 11 0 1 0; socket_rights 11 1 1 0') + life(RIGHTS, '0 1', '0 1 3') + pairs(RIGHTS, '0 1'),
    covers=['waiting for the pair'],
    bounds='ids of 1-2 digits (thorough: 3) and any one of them close to 2^8, 2^16, 2^31 or 2^32 (not -1, which is nobody\'s), any umask, any effective gid below 256' + '; ' + LIFE),
'C04': dict(
    quick=JJ('socket_rights 1 0 1 0; socket_rights 1 1 1 0; socket_rights 1 0 0 1; socket_rights 1 1 0 1') + life(INSTANT, '0 1'),
    thorough=JJ('socket_rights 2 0 1 0; socket_rights 2 1 1 0; socket_rights 1 0 1 1; socket_rights 1 1 1 1; socket_rights 1 0 0 2; socket_rights 1 1 0 2') + life(INSTANT, '0 1', '0 1 3') + pairs(INSTANT, '0'),
    covers=['bound'],
    bounds='ids of 1 digit (thorough: 2), any umask, effective gid below 256; the permissions are examined after every system call that creates or changes the socket; ' + FAULTS + ' (thorough: any two)' + '; ' + LIFE),
'C05': dict(
    quick=JJ('; '.join('sockdir %d %d' % (f, d) for f in (0, 1) for d in range(8))) + life(DIRS, '0 1'), thorough=JJ('; '.join('sockdir %d %d' % (f, d) for f in (0, 1) for d in range(8))) + life(DIRS, '0 1', '0 1 3') + pairs(DIRS, '0'),
    covers=['safe directory', 'unsafe directory'],
    bounds='every 32-bit owner, effective and real uid, every mode, absent/directory/socket/file/device, the default directory and seven configured ones; ' + FAULTS + '; ' + LIFE),
'C06': dict(
    quick=JJ('occupied 0; occupied 1') + life(TAKEN, '0 1'), thorough=JJ('occupied 0; occupied 1; occupied 2') + life(TAKEN, '0 1', '0 1 3'),
    covers=['stale socket replaced', 'path taken', 'a link'],
    bounds='a directory, socket, file, pipe, device or link at the path, owner below 256, every mode; ' + FAULTS + ' (thorough: any two)' + '; ' + LIFE),
'C07': dict(
    quick=JJ('cleanup 0 0 1; cleanup 1 0 1; cleanup 0 1 1; cleanup 1 0 0') + life(CLEAN, '0 1 2 8'), thorough=JJ('cleanup 2 0 1; cleanup 1 1 1; cleanup 2 1 0') + life(CLEAN, '0 1 2 8', '0 1 3') + pairs(CLEAN, '0'),
    covers=['approved', 'refused'],
    bounds='any umask, any previous SIGINT flags and handler, any answer byte or none, pair gone or not, Ctrl-C at any of 11 blocking calls; ' + FAULTS + ' (thorough: any two)' + '; ' + LIFE),
'C08': dict(
    quick=JJ('sockpath 1 1 0; sockpath 3 3 0; sockpath 2 2 1; sockpath 2 2 2; sockpath 11 1 0; sockpath 1 1 3') + life(PATH, '0 1'), thorough=JJ('sockpath 5 5 0; sockpath 3 3 1; sockpath 3 3 2; sockpath 11 1 0; sockpath 1 1 3') + life(PATH, '0 1', '0 1 3') + pairs(PATH, '0'),
    covers=['bound', 'too long'], bounds='uid and pid of up to 3 digits each (thorough: 5), default directory, a configured one with one free byte, with and without trailing slash, one of any of 2 to 120 bytes' + '; ' + LIFE),
'C09': dict(
    quick=JJ('mirror 1 1 0; mirror 2 3 0; mirror 3 0 0; mirror 2 3 1; mirror 2 2 2; mirror 3 1 2; mirror 2 2 3; torrent 1 0 0; torrent 1100 2 0; torrent 40 3 1; torrent 1 1100000 0') + life(MIRROR, '0 1 6'),
    thorough=JJ('mirror 4 0 0; mirror 3 8 0; mirror 3 4 1; mirror 4 2 2; mirror 3 2 3; mirror 1 64 0; torrent 1 0 0; torrent 1100 2 0; torrent 40 3 1; torrent 3 4097 1; torrent 3 65537 0; torrent 1 1100000 0') + life(MIRROR, '0 1 6', '0 1 3') + pairs(MIRROR, '0'),
    covers=['mirrored', 'pair gone'],
    bounds='up to 3 callbacks (thorough: 4) on any of the three output channels, up to 3 bytes each (thorough: 64) of any value, writes taken whole or 1-2 bytes at a time, any write failing with any errno but EINTR or taking 0 bytes and every one after it, Ctrl-C during any write; 1100 small callbacks, one of any of 41 sizes up to 70000 bytes or of 1100000 bytes with any bytes at its ends and block boundaries, window size changes in between' + '; ' + LIFE),
'C10': dict(
    quick=JJ('winsize 2 2; winsize 4 1; winsize 1 4; winsize 11 11; winsize 12 14; winsize 13 13; winsize 14 12; winsize 15 15') + life(RESIZE, '0 1 5'), thorough=JJ('winsize 4 4; winsize 6 1; winsize 1 6; winsize 11 11; winsize 12 14; winsize 13 13; winsize 14 12; winsize 15 15') + life(RESIZE, '0 1 5', '0 1 3') + pairs(RESIZE, '0'),
    covers=['sent'], bounds='lines and columns below 100 each, or one below 10000 (thorough: both below 10000, or one below 1000000), and within 9 of 2^8, 2^15, 2^16, 2^31, 2^32' + '; ' + LIFE),
'C11': dict(
    quick=JJ('stdin 1 0; stdin 2 0; stdin 1 1; stdin 1 2; stdin 1 3; stdin 1 4') + life(STDIN_, '0 1 2 5'), thorough=JJ('stdin 8 0; stdin 8 1; stdin 8 2; stdin 8 3; stdin 8 4') + life(STDIN_, '0 1 2 5', '0 1 3') + pairs(STDIN_, '0'),
    covers=['denied', 'exempt'], bounds='1-2 bytes of input (thorough: 8), every combination of logging hints (absent, true, false), each reason for exemption' + '; ' + LIFE),
'C12': dict(
    quick=JJ('ctrlc') + life(CTRLC, '0 1'), thorough=JJ('ctrlc') + life(CTRLC, '0 1', '0 1 3') + pairs(CTRLC, '0'), covers=['while connecting', 'while answering'],
    bounds='Ctrl-C during any one of the first 11 calls that can block; any previous SIGINT flags and handler' + '; ' + LIFE),
'C13': dict(
    quick=JJ('exempt 1 1 1 1 1 0 1; exempt 1 1 1 1 1 1 1; exempt 1 1 1 1 1 0 2; exempt 1 1 1 0 0 1 1; exempt 1 2 0 1 1 0 1; exempt 11 1 1 1 1 1 1') + life(BOTH, '0 1 8'),
    thorough=JJ('exempt 2 1 1 1 1 1 1; exempt 2 1 1 1 1 1 2; exempt 1 2 2 2 2 0 1; exempt 1 2 0 2 2 1 1; exempt 11 1 1 1 1 1 1') + life(BOTH, '0 1 8', '0 1 3') + pairs(BOTH, '0 1'),
    covers=['user and group', 'pairing required', 'exempt'],
    bounds='ids of 1 digit (thorough: 2), up to 2 entries per group list, group name free in one byte of any value' + '; ' + LIFE),
'C14': dict(
    quick=JJ('history 3; history 4') + twice(), thorough=JJ('history 6') + twice('0 1 3', '0 1 2 3 4 5 6 7 8'),
    covers=['closed', 'second session', 'call before open', 'another session after it', 'the pair left', 'version'],
    bounds='every order of up to 4 legal calls (thorough: 6) out of open (paired, exempt, -V), close, output on each stream, window size, typed and piped input, show_version, with the pair leaving at any point; answers and output bytes of any value; two sessions in a row, one of six kinds, the other with ' + LIFE),
'C15': dict(
    quick=JJ('version_only 0; version_only 1; version_only 2') + life(VERSION, '0 1 2'), thorough=JJ('version_only 0; version_only 1; version_only 2; version_only 4') + life(VERSION, '0 1 2', '0 1 3') + pairs(VERSION, '0'),
    covers=['version', 'pairing required'], bounds='command of 1-2 bytes (thorough: 4) of any value, with and without arguments; no command at all' + '; ' + LIFE),
'C16': dict(
    quick=JJ('local_prompt 0; local_prompt 1; local_prompt 2; local_prompt 0 1; local_prompt 2 1; long_prompt 1; long_prompt 2; local_trouble') + life(USERP, '0 1'), thorough=JJ('local_prompt 0; local_prompt 1; local_prompt 2; local_prompt 3; local_prompt 0 1; local_prompt 3 1; local_prompt 2 2; long_prompt 1; long_prompt 2; local_trouble') + life(USERP, '0 1', '0 1 3') + pairs(USERP, '0'),
    covers=['on the terminal', 'printed', 'asked'], bounds='templates of up to 2 bytes (thorough: 3) of any value, one to two free bytes per expanded value, no NUL in the text; no terminal, a terminal, one that cannot be opened; files read and terminals written whole or a byte at a time; templates of any of 41 sizes up to 70000 bytes with any bytes at their ends and block boundaries; any two system calls failing with any errno but EINTR; printf failing or absent' + '; ' + LIFE),
'C17': dict(
    quick=JJ('template 0 1 1 0; template 1 1 1 0; template 2 1 1 0; template 3 1 1 0; template 2 0 2 0; template 2 1 1 1; template long; remote_prompt 1 0 0; remote_prompt 2 0 0'),
    thorough=JJ('template 4 1 1 0; template 5 1 1 0; template 3 0 2 0; template 3 2 3 1; template long; remote_prompt 2 0 0; remote_prompt 3 0 0'),
    covers=['expanded', 'length changed', 'shown'], bounds='templates of up to 3 bytes (thorough: 5) of any value, two expansions with any keys and values of up to 2 bytes, % or any escape byte; templates of up to 70000 bytes with 1, 2 or 300 expansions of values of up to 600 bytes, alone or with every letter defined; through the plugin: templates of up to 2 bytes (thorough: 3)'),
'C18': dict(
    quick=JJ('remote_prompt 0 0 0; remote_prompt 0 1 0; remote_prompt 0 2 0; remote_prompt 2 0 0; remote_prompt 2 1 0; remote_prompt 0 0 1; remote_prompt 2 0 0 1; remote_prompt 0 1 0 1; long_prompt 0') + life(PAIRP, '0 1'),
    thorough=JJ('remote_prompt 0 1 0; remote_prompt 0 2 0; remote_prompt 3 0 0; remote_prompt 3 1 0; remote_prompt 3 2 0; remote_prompt 1 0 1; remote_prompt 3 0 0 1; remote_prompt 0 1 0 2; long_prompt 0') + life(PAIRP, '0 1', '0 1 3') + pairs(PAIRP, '0'),
    covers=['shown'], bounds='no template file, or one of 2 bytes (thorough: 3) of any value; every expanded value free in one or two bytes; files read and the connection written whole or a byte at a time; templates of any of 41 sizes up to 70000 bytes with any bytes at their ends and block boundaries; ' + FAULTS + '; ' + LIFE),
'C19': dict(
    quick=JJ('optmap 1 1 1; optmap 1 4 1; optmap 2 3 1; optmap 1 3 0; optmap 2 2 2; optmap 0 0 1; optmap 3 2 1; optlong 0 0; optlong 0 1; optlong 8 1; optlong 300 0'),
    thorough=JJ('optmap 1 8 2; optmap 2 4 2; optmap 3 3 1; optmap 3 2 2; optmap 4 2 1; optlong 0 0; optlong 0 1; optlong 30 1; optlong 100 0'),
    covers=['absent', 'present'], bounds='up to 3 entries (thorough: 4) of up to 4 bytes (thorough: 8) of any value, keys of up to 2 bytes; one key and value of any of 25 lengths up to 70000 bytes, any bytes at their ends and at powers of two, alone or amid 8 or 300 others'),
'C20': dict(
    quick=JJ('ints 8 3 0; ints -8 4 0; ints 16 3 0; ints 32 3 0; ints -32 3 0; ints 64 3 0; ints -64 3 0; ints 32 10 1 5; ints -32 11 2 5; ints 64 20 1 17; ints -64 20 2 16; words 4; words 5; words 2; lists 3; lists 5; lists long; words long'),
    thorough=JJ('ints 8 5 0; ints -8 5 0; ints 16 5 0; ints -16 5 0; ints 16 6 1; ints 32 4 0; ints -32 4 0; ints 64 4 0; ints -64 4 0; ints 32 10 1 3; ints -32 11 2 5; ints 64 20 1 16; ints -64 20 2 15; words 4; words 5; words 6; words 1; words 8; lists 3; lists 6; lists 7; lists long; words long'),
    covers=['number', 'not a number', 'boolean', 'not a boolean', 'list', 'not a list'],
    bounds='numbers: any strings of up to 3-4 bytes (thorough: 5), and digit strings at each type\'s limits with the last 3-5 digits free; booleans, strings, paths of up to 5 bytes (thorough: 8); lists of up to 5 characters (thorough: 7) out of digits, comma, signs, blanks and one other; strings and paths of 25 lengths up to 70000 bytes, lists of 17 to 1025 numbers up to and beyond 32 bits'),
'C21': dict(
    quick=JJ('fields 0 0; fields 1 0; fields 2 0; fields 0 1; fields 1 1; fields 2 1; fields 0 2; fields 1 2; fields 2 2; fields 0 3; fields 1 3; fields 2 3') + life(REQ, '0 2'),
    thorough=JJ('fields 0 0; fields 1 0; fields 2 0; fields 0 1; fields 1 1; fields 2 1; fields 0 2; fields 1 2; fields 2 2; fields 0 3; fields 1 3; fields 2 3') + life(REQ, '0 2', '0 1 3') + pairs(REQ, '0'),
    covers=['read', 'default', 'required', 'required and malformed'], bounds='every setting of the three lists, one at a time, two-byte values of any content, texts of 17 to 70000 bytes, lists of 17 to 1025 numbers; names one edit away from a known one; an unknown name of any 0 to 24 bytes' + '; ' + LIFE),
'C22': dict(quick=JJ('version'), covers=['accepted', 'refused'], bounds='every 32-bit API version, every 16-bit major and minor'),
'C23': dict(
    quick=JJ('dispatch 0 1; dispatch 1 1; dispatch 0 0; dispatch 1 3; dispatch2 0; dispatch2 1'), thorough=JJ('dispatch 0 8; dispatch 1 8; dispatch 0 0; dispatch 1 0; dispatch2 0; dispatch2 1'),
    covers=['called', 'not called', 'error', 'panic', 'opened', 'closed', 'open failed'],
    bounds='one callback of each kind with buffers of 0-3 bytes (thorough: 8), every 32-bit size, status and verbosity, every outcome of the plugin\'s method, hint absent, true, false or malformed, plugins that heed and that ignore hints'),
'C24': dict(
    quick=JJ('panics 0 1; panics 1 1; panics 0 2'), thorough=JJ('panics 0 3; panics 1 3'), covers=['panicked', 'close panicked', 'a session after a panic'],
    bounds='a panic in any callback, before or after open, up to 2 callbacks in sequence (thorough: 3)'),
'C25': dict(
    quick=JJ('print 1; print 2; print 4; print_line 0; print_line 1; print_line 3; print_line long'), thorough=JJ('print 1; print 4; print 6; print 8; print_line 0; print_line 1; print_line 6; print_line long'), covers=['printed', 'not printed'],
    bounds='texts of up to 4 bytes (thorough: 8) of any value, both streams, printf failing or absent; lines from plugins of seven names, any one of the first 7 calls of printf failing; texts of any of 41 sizes up to 70000 bytes'),
'C26': dict(
    quick=JJ('hostile 0 2 1; hostile 1 2 1; hostile 2 2 1; hostile 3 2 1; hostile 0 3 0; hostile 1 3 0; hostile 2 3 0; hostile 3 3 0; hostile 0 0 2; hostile 1 0 2; hostile 2 0 2; hostile 3 0 2; hostile 3 1 2'),
    thorough=JJ('hostile 0 3 1; hostile 1 3 1; hostile 2 3 1; hostile 3 3 1; hostile 0 4 0; hostile 1 4 0; hostile 2 4 0; hostile 3 4 0; hostile 0 1 2; hostile 1 1 2; hostile 2 1 2; hostile 3 1 2'),
    covers=['accepted', 'refused'], bounds='one setting at a time, any value of 2 bytes (thorough: 3), or any entry of 3 bytes (thorough: 4); 15 longer values (not UTF-8 throughout, numbers beyond 64 bits, conversions, lists), for the plugin\'s own options (thorough: all) with any byte at either end or in the middle replaced'),
'C27': dict(
    quick=JJ('invocation 0 1 1; invocation 1 1 1; invocation 2 2 1; invocation 0 0 0; invocation 2 1 2') + life(CMDLINE, '0'), thorough=JJ('invocation 0 1 1; invocation 1 1 1; invocation 2 3 2; invocation 3 2 2; invocation 2 0 0') + life(CMDLINE, '0', '0 1 3') + pairs(CMDLINE, '0'),
    covers=['command line'], bounds='every subset of the switches, every subset of the flags with a value, all but one (thorough: two) of both; up to 2 arguments of up to 2 bytes of any value; sudo and sudoedit' + '; ' + LIFE),
'C28': dict(
    quick=JJ('runas_gids 0 1; runas_gids 1 1; runas_gids 2 1; runas_gids 2 2; runas_gids 0 11; runas_gids 1 11; runas_gids 2 11; runas_gids 0 1 70; runas_gids 1 1 70; runas_gids 1 1 300; runas_gids 0 1 300'), thorough=JJ('runas_gids 0 2; runas_gids 3 2; runas_gids 4 1; runas_gids 1 3; runas_gids 0 11; runas_gids 1 11; runas_gids 2 11; runas_gids 0 1 70; runas_gids 1 1 70; runas_gids 1 1 300; runas_gids 0 1 300'),
    covers=['groups'], bounds='2 user groups and up to 2 target groups (thorough: 4) of up to 2 digits (thorough: 3) and up to 300 fixed ones, effective gid given or not, membership of every 32-bit gid'),
'C29': dict(quick=JJ('reasons') + life(WHY, '0 8'),
    thorough=JJ('reasons') + life(WHY, '0 8', '0 1 3') + pairs(WHY, '0'), covers=['told'], bounds='one session per reason for refusal; any declining answer byte' + '; ' + LIFE),
'C30': dict(quick=JJ('defaults 0; defaults 1; defaults 2; defaults 3; defaults 4'), thorough=JJ('defaults 0; defaults 1; defaults 2; defaults 2 1; defaults 3; defaults 4'), covers=['paired', 'exempt'], bounds='every subset of the six options and an unknown one (thorough: in either order), no option list at all; an option whose name has any one byte replaced or added, one left out, or is a prefix or suffix of a known one, or is any unknown one of up to 24 bytes; target gid of one digit'),
'C31': dict(
    quick=JJ('addrs 1; addrs 2; addrs 3; addrs v4 1; addrs many 3; addrs long; addrs edit 0 1 0 0; addrs edit 1 1 0 0; addrs edit 2 1 0 0; addrs edit 2 0 1 0; addrs edit 2 2 0 0; addrs edit 3 1 0 0; addrs edit 4 1 0 0; addrs edit 4 0 1 0; addrs edit 4 0 0 1; addrs edit 5 1 0 0; addrs edit 0 0 1 1'),
    thorough=JJ('addrs 3; addrs 4; addrs 5; addrs v4 2; addrs many 4; addrs long; addrs edit 0 2 0 0; addrs edit 1 1 0 0; addrs edit 1 0 1 1; addrs edit 2 2 0 0; addrs edit 3 2 0 0; addrs edit 4 2 0 0; addrs edit 4 1 1 0; addrs edit 4 1 0 1; addrs edit 5 1 0 0; addrs edit 5 0 1 0'), covers=['survived', 'address'],
    bounds='values of up to 3 bytes (thorough: 5) out of 1, a, slash, dot, colon, blank; IPv4 addresses and masks with one digit (thorough: two) per part; lists of 3 (thorough: 4) entries of 12 kinds, or of 17 to 257 well-formed ones; six lists of IPv4 and IPv6 entries with one byte (thorough: two) replaced, added or left out'),
'C35': dict(
    quick=JJ('approve 1 1 0; approve 0 1 0; sockdir 1; occupied 1; remote_prompt 0 0 1') + life(FAULT, '0 1', '0'), thorough=JJ('approve 1 2 0; approve 0 2 0; approve 2 1 1; sockdir 1; occupied 2; cleanup 2 1 1; remote_prompt 1 0 1') + life(FAULT, '0 1 2 4', '0 3'),
    covers=['approved'], bounds=FAULTS + ' (thorough: any two); pair sends nothing or one byte of any value, connects or not; ' + LIFE),
'C32': dict(quick=JJ('error_chain'), covers=['shown', 'causes shown'], bounds='errors with any of 23 numbers of causes up to 257, messages starting at any of 8 texts, plugins of seven names, any one of the first 7 calls of printf failing'),
'C33': dict(quick=JJ('missing') + life(REQ, '0 8'),
    thorough=JJ('missing') + life(REQ, '0 8', '0 1 3') + pairs(REQ, '0'), covers=['missing'], bounds='each of the 14 required settings missing, one at a time' + '; ' + LIFE),
'C34': dict(quick=JJ('table; dispatch 0 1; dispatch 1 1; dispatch2 0; dispatch2 1; stdin 1 0'), thorough=JJ('table; dispatch 0 3; dispatch 1 3; dispatch2 0; dispatch2 1; stdin 2 0'), covers=['table', 'called', 'opened', 'closed'], bounds='the plugin\'s own table and those of three further plugins defined with the macro; every callback called through its slot, with any buffer of one byte (thorough: 3), size, status and outcome'),
'C36': dict(shell=True, covers=['socat', 'sudo -u', 'sudo -g', 'gives up'],
    bounds='0 to 4 arguments; two arguments of 0 to 3 bytes of any value (thorough: up to 5), and of 7 to 20 digits around 2^32, 2^63 and 2^64; payloads that bash would evaluate; SUDO_UID set or not, any 32-bit uid, any owner, group, mode and type of every file, names of two letters, any outcome of every program run; run with TRACE set',
    assumptions=['bash 5.2 in the C locale; the parser and interpreter of bash in shell/ (every kind of path is replayed with the real bash)', 'stat, id, getent, cut and basename do what their manuals say, one snapshot of the file system', 'sockets in the directory are named UID.PID.sock with plain decimal numbers, as the plugin names them (C04, C05)', 'sudo sets SUDO_UID to the uid of its user']),
}
