"""Which harness entries decide which property, with what bounds, per tier."""
COMMON = [
    'the IR explored is rustc/LLVM -O2 output (overflow checks on) of /repo and the harness; LLVM and the engine\'s IR semantics are trusted, the latter validated by native replay of sampled paths',
    'allocation never fails; the terminal is a stand-in that accepts every write unless the entry says otherwise',
]
PLAN = {
    'C01': dict(
        quick=['c01_ops:1,3', 'c01_ops:2,2', 'c01_deep:6', 'c01_long:600'],
        thorough=['c01_ops:2,4', 'c01_ops:3,3', 'c01_deep:8', 'c01_long:2100'],
        bounds='3 arbitrary operations on <=1 initial characters, 2 on <=2 (thorough 4 on <=2, 3 on <=3), inserted texts <=2 characters, every character an arbitrary Unicode scalar value; 6 (thorough 8) operations restricted to one-character edits at either end, groups nested to any depth, undo, redo, revert; 600 (2100) edits of one kind, all undone and redone',
        outside='undo and redo while a group is still open',
    ),
    'C02': dict(
        quick=['c02_edit:0,1', 'c02_edit:1,2', 'c02_edit:4,2', 'c02_edit:9,3', 'c02_edit:20,12', 'c02_query:3', 'c02_match:5,4', 'c02_lines:5', 'c02_words:6', 'c02_long:300'],
        thorough=['c02_edit:0,1', 'c02_edit:1,2', 'c02_edit:4,2', 'c02_edit:9,3', 'c02_edit:40,40', 'c02_query:4', 'c02_match:7,6', 'c02_lines:7', 'c02_words:8', 'c02_long:1500'],
        reach={'c02_match': ['contains', 'absent'], 'c02_words': ['none', 'some']},
        bounds='edits on texts of 0,1,4,9,20 (thorough 40) characters at every position with insertions <=12 (40); queries on <=3 (4) arbitrary Unicode characters; matching on <=5/4 (7/6); lines and widths on <=5 (7) printable-ASCII/newline characters; last word on <=6 (8); removals and insertions at the ends and the middle of structured texts of 300 (1500) characters',
        outside='display width of non-ASCII text (C18 covers wide characters)',
    ),
    'C03': dict(
        quick=['c03_text:1,3,80,0', 'c03_text:2,2,3,2', 'c03_text:2,2,1,1', 'c03_text:2,2,5,3', 'c03_hist:2,2,1,2', 'c03_comp:2,2,3,5', 'c03_comp:1,2,3,1', 'c03_wide:1,2,1,2,5', 'c03_long:200,20', 'c03_nav:2,2,1,3,0'],
        thorough=['c03_text:2,3,3,2', 'c03_text:1,3,1,1', 'c03_text:3,2,5,3', 'c03_text:1,3,80,0', 'c03_hist:2,2,1,3', 'c03_hist:3,2,2,2', 'c03_comp:2,2,4,5', 'c03_comp:3,1,3,2', 'c03_wide:2,2,1,2,4', 'c03_long:1000,60'],  samples=60,
        bounds='3 arbitrary keys on <=1 character, 2 (thorough 3) on <=2, characters from 8 layout classes, widths 1,3,5,80, prompts empty, multi-line, coloured; 2 (3) keys with <=2 history entries of <=2 arbitrary ASCII characters; 3 (4) completion-oriented keys with <=2 candidates of <=2 characters; 2 navigation and search keys with 1 (2) entries of <=2 characters from the layout classes, width 5; key payloads: every ASCII character, a wide, a combining and a case-expanding one; 2 keys of 18 kinds on lines of 130 (660) characters with 20 (60) entries of up to 200 (1000)',
        outside='longer key sequences and texts; terminals narrower than one column; history files (C14, C15)',
    ),
    'C04': dict(
        quick=['c04_text:1,2,80,0,1', 'c04_text:2,2,3,1,1', 'c04_text:1,2,1,2,1', 'c04_text:2,2,3,3,0', 'c04_hist:2,1,1,2,1', 'c04_hist:2,1,1,3,0', 'c04_wide:1,1,1,2,3,1', 'c04_wide:1,1,1,2,3,0', 'c04_count:6,12', 'c04_long:200,20', 'c03_nav:2,2,1,3,1', 'c03_nav:2,2,1,3,2'],
        thorough=['c04_text:1,3,80,0,1', 'c04_text:2,3,3,1,1', 'c04_text:1,3,3,1,0', 'c04_hist:2,1,1,3,1', 'c04_hist:2,1,1,3,0', 'c04_wide:1,2,1,2,3,1', 'c04_wide:1,1,1,3,3,1', 'c04_wide:1,1,1,3,3,0', 'c04_count:8,25', 'c04_long:1000,60', 'c03_nav:3,2,1,3,1', 'c03_nav:3,2,1,3,2', 'c03_nav:2,1,1,4,2', 'c03_nav:2,1,1,4,1'],
        reach=dict.fromkeys(['c04_text', 'c04_hist', 'c04_wide'], ['end', 'normal']),  samples=60,
        bounds='2 (thorough 3) arbitrary keys after Esc or in insert mode on <=2 characters from 8 layout classes, widths 1,3,80; with <=2 history entries of one ASCII character or one of one character from the layout classes; key payloads: every ASCII character, a wide, a combining and a case-expanding one; C06-C08 additionally run longer structured command sequences; counts of up to 12 (25) digits before an operator and its motion; 2 commands of 17 kinds on lines of 130 (660) characters with 20 (60) entries',
        outside='longer key sequences; counted insertions take time in proportion to the count',
    ),
    'C05': dict(
        quick=['c05_keys:3,2,1', 'c05_keys:2,3,1', 'c05_keys:1,3,0', 'c05_keys:3,3,0', 'c05_word:4,2', 'c05_divider:3,2', 'c05_lastarg:2,2,1,3', 'c05_lastarg_recalled:3,3', 'c05_long:300,2', 'c05_many:100', 'c05_lastarg_long:100'],
        thorough=['c05_keys:3,3,1', 'c05_keys:5,2,0', 'c05_keys:3,3,0', 'c05_keys:2,4,1', 'c05_word:6,2', 'c05_word:8,1', 'c05_divider:4,2', 'c05_lastarg:3,2,1,3', 'c05_lastarg:2,3,2,3', 'c05_lastarg_recalled:3,4', 'c05_long:1500,2', 'c05_many:200', 'c05_lastarg_long:400'],
        reach={'c05_lastarg': ['end', 'recalled']}, 
        bounds='2-3 (thorough up to 4) arbitrary Emacs keys on <=3 (5) characters; word commands on <=4 (8) characters; last-argument recall with <=2 (3) entries of <=2 (3) arbitrary ASCII characters and 3 keys; a divider returning arbitrary ranges; 2 keys at the ends and the middle of structured texts of 300 (1500) characters; one command 100 (200) times, then undone; last-argument recall through 100 (400) entries',
        outside='longer sequences; the oracle is a reference text/cursor/undo model written from the documentation',
    ),
    'C06': dict(
        quick=['c06_motion:3,1,0,0,3', 'c06_motion:2,2,0,0,2', 'c06_motion:4,1,1,1,2', 'c06_motion:5,1,2,2,2', 'c06_count:4,0', 'c06_long:300'],
        thorough=['c06_motion:5,1,0,0,4', 'c06_motion:4,2,2,0,1', 'c06_motion:4,1,1,1,3', 'c06_motion:5,1,1,1,2', 'c06_motion:1,1,3,1,2', 'c06_count:6,0', 'c06_long:1000'],
        reach={'c06_long': ['moved', 'stays'], 'c06_motion': ['moved', 'stays']}, 
        bounds='one motion (searches with ; and , and pairs of motions too) with counts <=3 (thorough 4) on <=5 arbitrary printable ASCII characters or characters from a Vi word-class set, every cursor position; counts up to and beyond the largest number on structured texts of 300 (1000) characters',
        outside='longer texts, larger counts; "^" is treated like "0" by this editor; Unicode keywords beyond one sampled letter',
    ),
    'C07': dict(
        quick=['c07_op:3,0,0,2', 'c07_op:3,1,1,1', 'c07_op:4,0,0,1', 'c07_cmd:3,0,4', 'c07_cmd:3,1,2', 'c07_insert:2,0,3', 'c07_long:200'],
        thorough=['c07_op:5,0,0,3', 'c07_op:3,1,0,2', 'c07_op:4,1,1,1', 'c07_cmd:5,0,5', 'c07_cmd:4,1,4', 'c07_insert:3,0,4', 'c07_long:500'],
        reach={'c07_long': ['done', 'fails'], 'c07_op': ['done', 'fails'], 'c07_cmd': ['end', 'r fails']}, 
        bounds='one operator with motion (d, c, all motions, counts before and after <=2, thorough 3) on <=4 (5) arbitrary ASCII characters; x s D C dd cc r ~ with counts <=4 (5); 3 (4) keys of an insert session; an operator with two counts up to and beyond the largest number on structured texts of 200 (500) characters',
        outside='longer texts; larger counts',
    ),
    'C08': dict(
        quick=['c08_dot:2,0,1,2,1', 'c08_dot:1,0,0,1,2', 'c08_undo:2,0,1,2,1', 'c08_undo:2,0,0,1,2', 'c08_insert:2,2', 'c08_move:2,1,1', 'c08_up:1,2', 'c08_up:2,1', 'c08_two:0', 'c08_move:2,2,1', 'c08_dot_count:3,0,1', 'c08_long:60,20', 'c08_many:40,30'],
        thorough=['c08_dot:3,0,2,3,1', 'c08_dot:1,0,1,1,2', 'c08_dot:2,0,0,1,2', 'c08_undo:2,0,1,1,2', 'c08_undo:3,0,2,3,1', 'c08_insert:3,3', 'c08_move:2,2,2', 'c08_up:2,3', 'c08_two:1', 'c08_move:3,3,1', 'c08_dot_count:4,0,2', 'c08_long:150,20', 'c08_many:60,30'], 
        reach={'c08_up': ['end', 'changed', 'back'], 'c08_move': ['end', 'changed', 'dot'], 'c08_dot': ['end']},
        bounds='1-2 changes (every change command, operator with every motion, inserts with <=1, thorough 2, typed characters; counts <=2 (3)) followed by dot or u on <=2 (3) arbitrary ASCII characters at every cursor position; insertions with 1-2 movements in them, and 1-2 (3) keys after these; insertions of 20 characters up to 12 times into 60 (150); 30 changes, each undone, or the last repeated 30 times; every two of 23 (28) changes on a line of 18, then dot; insertions that go on in another entry',
        outside='longer histories of changes; repeating a search inside an insert session',
    ),
    'C09': dict(
        quick=['c09_read:1,1,1,3,0,2', 'c09_read:1,1,1,2,1,2', 'c09_read:1,2,2,2,0,0', 'c09_long:100,20'],
        thorough=['c09_read:2,2,1,3,0,2', 'c09_read:1,1,1,4,0,2', 'c09_read:1,2,2,3,1,2', 'c09_read:1,1,1,4,1,0', 'c09_long:400,60'],
        reach={'c09_read': ['exhausted', 'ctrl-c', 'entered', 'continued', 'dismissed', 'ctrl-d', 'search'], 'c09_read:1,2,2,2,0,0': ['exhausted', 'ctrl-c', 'entered', 'continued', 'search'], 'c09_read:1,1,1,4,1,0': ['exhausted', 'ctrl-c', 'entered', 'continued', 'search']}, 
        bounds='read_line over 3 (thorough 4) keys from 15 kinds on <=1-2 characters of initial text, <=1-2 history entries, <=2 completion candidates, both key maps; initial texts of 100 (400) characters continued over 20 (60) lines',
        outside='longer sessions',
    ),
    'C10': dict(
        quick=['c10_keys:2,2,1,2,0', 'c10_keys:1,2,1,3,0', 'c10_keys:2,2,1,2,1', 'c10_keys:1,2,1,3,2', 'c10_undo:2,2,0', 'c10_undo:2,2,1', 'c10_long:60'],
        thorough=['c10_keys:2,2,1,3,0', 'c10_keys:2,2,1,3,1', 'c10_keys:2,2,1,3,2', 'c10_keys:1,1,1,4,0', 'c10_undo:3,2,0', 'c10_undo:3,2,1', 'c10_long:400'],
        reach={'c10_keys': ['end', 'back', 'recalled', 'returned'], 'c10_undo': ['end', 'undone']}, 
        bounds='2-3 (thorough 4) keys from 17 kinds (navigation, search, editing, undo, completion, acceptance) on a draft of <=1 and <=2 entries of <=2 arbitrary ASCII characters, both key maps; visiting 60 (400) entries, editing on the way',
        outside='longer sessions',
    ),
    'C11': dict(
        quick=['c11_nav:2,2,1,3,1', 'c11_nav:3,2,1,4,0', 'c11_nav:3,2,1,3,2', 'c11_nav:3,2,1,3,3', 'c11_nav:3,2,0,3,1', 'c11_long:60'],
        thorough=['c11_nav:4,3,2,5,0', 'c11_nav:3,3,2,3,1', 'c11_nav:3,2,1,5,2', 'c11_nav:3,2,1,5,3', 'c11_nav:4,2,0,4,1', 'c11_long:600'],
        reach={'c11_nav': ['end', 'entry', 'draft']}, 
        bounds='<=3 (thorough 4) entries of <=2 (3) arbitrary ASCII characters, drafts of <=1 (2), 3-4 (5) navigation keys, interleaved with typing, clearing the screen and jumps; both key maps; 60 (600) entries from end to end and back',
        outside='longer histories',
    ),
    'C12': dict(
        quick=['c12_search:2,2,1,2,0', 'c12_search:2,2,1,2,1', 'c12_search:3,2,1,1,0', 'c12_narrow:3,2,2', 'c12_long:60'],
        thorough=['c12_search:3,2,1,2,0', 'c12_search:2,3,2,2,0', 'c12_search:2,2,1,3,0', 'c12_search:3,2,1,2,1', 'c12_narrow:3,2,3', 'c12_narrow:4,2,2', 'c12_long:400'],
        reach={'c12_search': ['end', 'next', 'kept', 'exact']}, 
        bounds='<=3 entries of <=2 (thorough 3) arbitrary ASCII characters, initial pattern <=1 (2), 2 (3) search keys (next, previous, typing, deleting), three ways of accepting; both key maps; 3 (4) entries a, aa, ab, aaa ... with the pattern a, then ab; 60 (400) entries around the ends of the matches',
        outside='longer histories; which match is chosen when a reverse search has no older one left',
    ),
    'C13': dict(
        quick=['c13_ops:2,1,3', 'c13_ops:2,2,2', 'c13_ops:1,3,1', 'c13_lookup:3,3,2', 'c13_long:1200,0', 'c13_long:40,11'],
        thorough=['c13_ops:2,1,4', 'c13_ops:3,2,2', 'c13_ops:2,3,2', 'c13_lookup:4,4,3', 'c13_long:3000,0', 'c13_long:300,256'],
        reach={'c13_ops': ['end', 'again', 'pushed', 'removed', 'dropped'], 'c13_ops:1,3,1': ['end'], 'c13_lookup': ['found', 'none', 'end']},
        bounds='1-3 (thorough 4) operations (push, remove duplicates, change the maximum, allow duplicates) on <=2 (3) entries of <=2-3 arbitrary ASCII characters; lookups over 3 (4) entries of <=3 (4) characters with prefixes/substrings of <=2 (3); 1200 (3000) pushes over the default maximum of 1000, 40 (300) over 11 (256)',
        outside='longer histories and entries',
    ),
    'C14': dict(
        quick=['c14_roundtrip:2,2,1', 'c14_roundtrip:3,1,1', 'c14_load:3,0', 'c14_load:5,1', 'c14_long:300,20,0', 'c14_long:8,3000,5'],
        thorough=['c14_roundtrip:3,2,1', 'c14_roundtrip:2,3,1', 'c14_roundtrip:2,2,2', 'c14_load:4,0', 'c14_load:6,1', 'c14_long:1200,20,0', 'c14_long:8,9000,5', 'c14_long:40,5000,0'],
        reach={'c14_load': ['end', 'comment', 'garbage'], 'c14_load:3,0': ['end', 'comment'], 'c14_load:4,0': ['end', 'comment']},
        bounds='<=2-3 entries of <=2 (thorough 3) arbitrary characters, file maximum and duplicate settings arbitrary, into an empty or filled history; loading files of <=3 (4) arbitrary bytes or <=5 (6) from a line-structure set; 300 (1200) entries; entries of up to 3000 (9000) characters',
        outside='larger files; entries ending in a carriage return (the line reader drops it)',
    ),
    'C15': dict(
        quick=['c15_append:1,1,2', 'c15_append:0,1,2', 'c15_compact:1,1,2,29', 'c15_compact:1,1,3,28', 'c15_compact:0,1,2,29', 'c15_fail:1,1,2,0', 'c15_fail:1,1,2,29', 'c15_editor:1,1,1,0', 'c15_editor:1,1,2,0', 'c15_editor:1,1,3,0', 'c15_long:100,10,0', 'c15_long:70,0,7', 'c15_long:95,20,5', 'c15_long:40,0,10'],
        thorough=['c15_append:1,1,3', 'c15_append:1,2,2', 'c15_append:0,1,3', 'c15_compact:1,1,4,28', 'c15_compact:1,2,2,29', 'c15_compact:0,1,3,28', 'c15_fail:1,1,3,0', 'c15_fail:1,1,3,28', 'c15_editor:1,1,2,1', 'c15_editor:1,1,2,2', 'c15_long:200,10,0', 'c15_long:200,0,7', 'c15_long:300,20,5', 'c15_long:1100,0,0', 'c15_long:130,0,10', 'c15_long:130,30,10'],
        reach={'c15_append': ['end', 'pushed', 'again'], 'c15_compact': ['end', 'compacted'], 'c15_fail': ['end', 'failed'], 'c15_editor': ['end', 'entry', 'done']},
        bounds='2 (thorough 3-4) pushes by two sessions, interleaved arbitrarily, of entries of <=1 (2) arbitrary characters, from a start 28 or 29 writes into the compaction period or at its beginning; every range of failing file system calls; 1-2 (3) editor keys on a history another session changes; 70-100 (200-1100) pushes by two sessions, with file maxima 10, 20, 1000 and memory maxima 5, 7, 1000',
        outside='a concurrent change that leaves the file size unchanged (the code detects changes by size); crashes of the operating system; entries with line breaks or starting with #',
    ),
    'C16': dict(
        quick=['c16_complete:2,2,2,2,0', 'c16_complete:2,2,1,3,1', 'c16_complete:2,2,1,3,2', 'c16_complete:1,3,1,4,0', 'c16_words:4,0', 'c16_words:4,1', 'c16_wide:2,2,3,1', 'c16_wide:1,2,3,2', 'c16_long:60,100'],
        thorough=['c16_complete:2,3,2,3,0', 'c16_complete:3,2,2,2,1', 'c16_complete:2,2,2,3,2', 'c16_complete:1,4,1,5,0', 'c16_words:6,0', 'c16_words:6,1', 'c16_wide:3,2,3,2', 'c16_wide:2,3,3,1', 'c16_long:90,200'],
        reach={'c16_complete': ['none', 'end', 'single', 'list', 'cycle', 'dismissed'], 'c16_words': ['end', 'single'], 'c16_wide': ['end', 'single', 'list', 'prefix']},
        bounds='lines of <=2 (thorough 3) arbitrary ASCII characters, every cursor position, <=3 (4) candidates of <=2 arbitrary ASCII characters (spaces included, unrelated to the word), 2-4 (5) Tabs with other keys in between, Emacs, Vi insert and normal mode; lines of <=4 (6) characters from a word-structure set with the default and with another word divider; words of <=2 (3) and 2 (3) candidates of <=3 characters of up to four bytes; 60 (90) candidates of up to 97 characters, cycled through on a line of 100 (200)',
        outside='longer candidates and lines; how the list of candidates is laid out on the screen',
    ),
    'C17': dict(
        quick=['c17_names:1,1,2,1,1', 'c17_names:1,1,1,0,0', 'c17_names:1,1,1,2,0', 'c17_typed:3,1', 'c17_typed:3,0', 'c17_typed:3,2', 'c17_fail:2', 'c17_basic:2,2,2', 'c17_long:40,100'],
        thorough=['c17_names:1,2,1,1,1', 'c17_names:1,2,1,0,0', 'c17_names:2,1,1,1,1', 'c17_names:1,1,2,2,0', 'c17_typed:4,0', 'c17_typed:4,1', 'c17_typed:4,2', 'c17_fail:4', 'c17_basic:3,2,2', 'c17_long:100,200'],
        reach={'c17_names': ['end', 'offered', 'other', 'link'], 'c17_typed': ['end', 'offered', 'parent', 'nowhere'], 'c17_fail': ['end', 'failed'], 'c17_basic': ['end', 'offered']},
        bounds='a virtual directory tree with 1 (thorough 2) file, directory or symbolic link (to a directory, a file or nothing) of <=1 (2) arbitrary ASCII characters at either of two levels, typed texts of ten leads and <=2 arbitrary characters; typed texts of <=3 (4) characters from a set of quotes, escapes, dots, slashes and letters on a fixed tree of 7 entries; with, without and below the working directory, both case sensitivities; every range of <=8 failing calls; lists of <=2 (3) words of <=2 arbitrary Unicode characters; a directory of 40 (100) entries with names of up to 100 (200) characters',
        outside='names with backslashes or that are not UTF-8, case folding outside ASCII',
    ),
    'C18': dict(
        quick=['c18_words:4,0', 'c18_words:8,2', 'c18_words:6,1', 'c18_position:5,20', 'c18_adjacent:4,12', 'c18_editor:4', 'c18_long:300'],
        thorough=['c18_words:5,0', 'c18_words:10,2', 'c18_words:9,1', 'c18_position:7,40', 'c18_adjacent:6,24', 'c18_editor:6', 'c18_long:2000'],
        reach={'c18_words': ['none', 'some'], 'c18_position': ['in', 'left', 'right', 'space']},
        bounds='lines of <=4 (thorough 5) arbitrary Unicode, <=8 (10) ASCII characters; positions over <=5 (7) arbitrary words in a line of <=20 (40); structured lines of 300 (2000) characters',
        outside='longer lines; a space preceded by a backslash is not a separator',
    ),
    'C19': dict(
        quick=['c19_text:2,3,3,0,2', 'c19_text:3,2,4,2,2', 'c19_text:2,2,2,1,0', 'c19_text:2,2,3,3,2', 'c19_text:2,2,5,4,2', 'c19_text:2,2,3,5,2', 'c19_text:2,2,80,0,2', 'c19_hist:2,2,1,2,6,1', 'c19_hist:1,2,1,3,5,0',
               'c19_vi:2,3,5,0,2', 'c19_vi:3,2,4,3,2', 'c19_list:1,3,2,3,4,1', 'c19_columns:6,4,12', 'c19_start:6', 'c19_set:2,2,5', 'c19_set:2,2,3', 'c19_long:200'],
        thorough=['c19_text:3,3,3,0,2', 'c19_text:3,3,4,2,2', 'c19_text:4,3,2,1,0', 'c19_text:3,3,3,3,2', 'c19_text:3,3,5,4,2', 'c19_text:2,3,3,5,2', 'c19_text:2,4,4,0,1', 'c19_hist:2,2,1,3,6,1', 'c19_hist:2,3,1,2,4,2', 'c19_hist:1,2,1,4,5,0',
               'c19_vi:3,3,5,0,2', 'c19_vi:4,3,4,3,2', 'c19_vi:2,4,3,0,0', 'c19_list:2,4,3,3,7,1', 'c19_columns:10,6,30', 'c19_start:12', 'c19_set:3,3,5', 'c19_set:2,3,2', 'c19_long:600'],
        reach={'c19_text': ['end', 'entered', 'margin', 'wrapped'], 'c19_text:2,2,80,0,2': ['end', 'entered', 'wrapped'], 'c19_hist': ['end', 'entered', 'margin', 'wrapped', 'search', 'suggestion'], 'c19_vi': ['end', 'entered', 'margin', 'wrapped', 'normal'],
               'c19_list': ['end', 'rows', 'dismissed'], 'c19_columns': ['end', 'rows', 'columns', 'dismissed'], 'c19_start': ['end', 'margin', 'wrapped', 'next row'], 'c19_set': ['end', 'wrapped']},
        bounds='every output byte fed to a terminal emulator written for this check: lines of <=3 (thorough 4) characters (arbitrary printable ASCII, line breaks, a wide and a combining one), 2-3 (4) editing, movement, clear-screen and Enter keys, terminal widths 2-6 and 80, six prompts (empty, several lines, coloured with a wide character, wider than the terminal), with and without a colour closure; suggestions, browsing and searching with <=2 entries of <=2 (3) characters; Vi with the mode in the prompt; lists of <=6 (10) candidates on widths 2-12 (30); earlier output ending in any column; 2 keys at the ends and the middle of structured lines of 200 (600) characters on widths 7, 20, 80',
        outside='terminals that scroll (the screen is taken as high enough), control characters in the text, wide characters on a terminal one column wide, search patterns with line breaks; a list of candidates may stay on the screen for one more key',
    ),
    'C20': dict(
        quick=['c20_prompt:2,2,1,5', 'c20_prompt:3,1,1,3', 'c20_long:60'],
        thorough=['c20_prompt:3,2,1,5', 'c20_prompt:4,1,1,3', 'c20_prompt:2,4,2,7', 'c20_long:200'],
        reach={'c20_prompt': ['end', 'margin', 'wrapped', 'colour', 'title']},
        bounds='prompts of <=3 (thorough 4) pieces: an arbitrary printable ASCII character, a wide character, a line break, a CSI sequence with <=2 (4) arbitrary parameter bytes, a title (OSC) sequence of <=2 (4) arbitrary printable characters ended by BEL or ESC \\; lines of <=1 (2) characters; widths 3 and 5 (7); the screen is checked after drawing, typing and moving; prompts of 60 (200) characters with as many colour or title sequences of growing length',
        outside='CSI sequences ended by other than a letter or that move the cursor; other kinds of escape sequences',
    ),
    'C21': dict(
        quick=['c21_suggest:2,3,2,1,0', 'c21_suggest:2,2,1,2,1', 'c21_suggest:2,2,1,2,2', 'c21_long:100,200', 'c21_browse:2,2,1,3,0', 'c21_browse:2,2,1,3,1'],
        thorough=['c21_suggest:3,4,3,2,0', 'c21_suggest:3,3,2,2,1', 'c21_suggest:3,3,2,2,2', 'c21_suggest:2,2,1,4,0', 'c21_long:1100,600', 'c21_browse:2,2,1,4,0', 'c21_browse:2,2,1,4,1'],
        reach={'c21_suggest': ['end', 'suggested', 'accepted', 'entered'], 'c21_browse': ['end', 'suggested', 'none']}, 
        bounds='<=2 (thorough 3) entries of <=3 (4) arbitrary ASCII characters, lines of <=2 (3), 1-2 (4) editing keys, then acceptance by Ctrl-F or Right, Enter, or a movement; Emacs, Vi insert and Vi normal mode; 100 (1100) entries, one of them of 200 (600) characters',
        outside='longer lines',
    ),
    'C22': dict(
        quick=['c22_mode:1,1,2,1', 'c22_mode:1,1,2,0', 'c22_mode:2,1,3,0', 'c22_plain:2,2,0', 'c22_plain:2,2,2', 'c22_long:60'],
        thorough=['c22_mode:1,1,3,1', 'c22_mode:2,2,3,1', 'c22_mode:2,1,4,0', 'c22_plain:3,3,0', 'c22_plain:3,3,2', 'c22_long:400'],
        reach={'c22_mode': ['insert', 'command', 'done']},
        bounds='2 (thorough 3) arbitrary keys after Esc, 3 (4) from insert mode (every printable ASCII character and the editing and navigation keys) on a line of 1-2 characters and a history entry, the completer setting a new prompt before any one of them; prompts without status of <=2 (3) arbitrary ASCII characters over 2 (3) keys; 60 (400) keys changing the mode',
        outside='longer key sequences; while a command waits for another key the indicator says normal',
    ),
    'C23': dict(
        quick=['c23_keys:0,2,2,5', 'c23_keys:1,2,0,5', 'c23_keys:1,2,1,5', 'c23_keys:1,1,0,16', 'c23_keys:1,1,2,16', 'c23_read:1,2,0,7', 'c23_read:1,1,1,12', 'c23_read:0,1,0,16', 'c23_read:0,1,1,16', 'c23_long:200,7'],
        thorough=['c23_keys:1,2,2,12', 'c23_keys:1,3,0,8', 'c23_keys:1,3,1,8', 'c23_read:1,2,0,16', 'c23_read:1,2,1,16', 'c23_read:1,3,0,12', 'c23_long:600,9'],
        reach={'c23_keys': ['failed', 'end'], 'c23_read': ['failed', 'bad key', 'end']},
        bounds='read_line and key-by-key handling over 1-2 (thorough 3) keys from 23 kinds (in Vi normal mode every printable ASCII character) with every write or flush up to the 5th-16th failing, once or from then on, with two error kinds; any key unreadable; the key after a failure; any one of the first 200 (600) operations of a session failing',
        outside='a terminal whose size cannot be queried; a failing history file (C15)',
    ),
    'C24': dict(
        quick=['c24_events:1,2,5', 'c24_events:2,3,3', 'c24_vi:1,2,0', 'c24_vi:2,2,1', 'c24_long:60'],
        thorough=['c24_events:3,3,8', 'c24_events:1,4,5', 'c24_vi:2,3,1', 'c24_vi:2,4,0', 'c24_long:300'],
        reach={'c24_events': ['end', 'changed', 'completed']},
        bounds='read_line over 2-3 (thorough 4) keys from 16 kinds on <=2 (3) arbitrary ASCII characters, the completer making one of four edits in any one of the first 3-8 events; Emacs against a reference model, Vi for order, keys and consistency; 60 (300) keys with cycling, browsing and searching',
        outside='completers making several changes',
    ),
    'C25': dict(
        quick=['c25_calls:2,2,0', 'c25_calls:2,2,1', 'c25_calls:0,3,0', 'c25_insert:1,1,1', 'c25_insert:0,1,2', 'c25_redo:1,2', 'c25_redo:0,3'],
        thorough=['c25_calls:4,2,0', 'c25_calls:4,2,1', 'c25_calls:3,2,0', 'c25_calls:0,3,1', 'c25_insert:1,2,1', 'c25_insert:1,1,2', 'c25_redo:2,3', 'c25_redo:0,4'],
        reach={'c25_calls': ['end', 'taken', 'into'], 'c25_insert': ['end'], 'c25_redo': ['end', 'redo', 'revert']},
        bounds='2 calls of 18 kinds on lines of <=2 (thorough 4) arbitrary ASCII characters (3 calls on an empty line), new or recalled from the history, with and without no_eol; any 64-bit count and position for motions, any position in the line for deletions; then the line taken, or the editor turned into a string; strings of <=2 characters, control characters and wide and combining ones included, put anywhere into lines of <=1 such character; up to 3 (4) edits undone and redone one by one',
        outside='deletions to positions beyond the line; drawing (C19)',
    ),
    'C26': dict(
        quick=['c26_colour:1,1,2,1,80', 'c26_colour:2,1,2,1,80', 'c26_colour:1,1,2,2,80', 'c26_colour:1,1,3,1,6', 'c26_search:2,1,3', 'c26_search:1,2,3'],
        thorough=['c26_search:2,2,3', 'c26_search:3,1,4', 'c26_colour:2,2,3,1,80', 'c26_colour:2,1,2,2,80', 'c26_colour:0,2,2,2,80', 'c26_colour:2,1,3,2,7', 'c26_colour:3,1,4,1,80'],
        reach={'c26_colour': ['end', 'suggestion', 'entered'], 'c26_search': ['end', 'found', 'nothing']},
        bounds='lines of <=2 (thorough 3) characters (arbitrary ASCII, wide, line break), 1-2 history entries of <=3 (4) such characters, 1-2 keys of 8 kinds; terminals 80 and 6-7 columns wide; searches with patterns of <=3 (4) characters over 1-2 entries of <=2 (3)',
        outside='functions that change what is displayed',
    ),
    'C27': dict(
        quick=['c27_tty:3,80,0', 'c27_tty:3,0,1', 'c27_tty:3,5,0', 'c27_tty:2,1,0', 'c27_fail:3,12,0', 'c27_fail:3,12,1', 'c27_lines:4,2', 'c27_long:40,20', 'c27_long:1500,80'],
        thorough=['c27_tty:4,80,0', 'c27_tty:4,0,1', 'c27_tty:4,5,1', 'c27_fail:4,16,0', 'c27_fail:4,16,1', 'c27_lines:5,3', 'c27_long:100,7', 'c27_long:5000,80'],
        reach={'c27_tty': ['end', 'line'], 'c27_fail': ['end', 'no terminal', 'failed'], 'c27_lines': ['end'], 'c27_long': ['end']},
        bounds='3 (thorough 4) keys of 7 kinds, each sent as a terminal sends it, in both key bindings, terminals 5, 80 and an unknown number of columns wide; each of these reads failing, each of the first 12 (16) writes failing, writes that take 3, 7 or 1000 bytes at most, standard output that is no terminal; two (three) lines in a row with what is typed ahead; lines of 1500 (5000) characters',
        outside='decoding of keys by termion beyond those kinds; signals',
    ),
}

NA = {}
import json as _j, os as _o
for _l in open(_o.path.join(_o.path.dirname(_o.path.abspath(__file__)), 'properties.jsonl')):
    _i = _j.loads(_l)['id']
    if _i not in PLAN: NA.setdefault(_i, 'check not built yet (work in progress)')
