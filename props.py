#!/usr/bin/env python3
"""Source of properties.jsonl."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state], 'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'observe_at': observe, 'hook_needed': None}})

p('C01', 'Undo and redo are exact inverses, edit by edit and group by group',
  'Undoing restores exactly the text before the most recent not yet undone edit, or before the most recent undo group if that edit belongs to one; redoing restores exactly the text after it, and a new edit discards what could be redone. Empty groups, nested groups and empty nested groups never make undo or redo cross into a neighbouring edit. Revert restores the initial text.',
  ['histories', 'inputs'], 'every sequence of inserts, removals, truncations, copies, (nested) undo groups, undo, redo and revert; every character content',
  'The tests run a handful of fixed sequences on "abcdefg"; the property is about all interleavings of edits, group boundaries, undo and redo.',
  ['src/buffer.rs'], [('Buffer::undo/redo/revert', 'src/buffer.rs'), ('Action::do_on/undo', 'src/buffer.rs'), ('push_action', 'src/buffer.rs')], ['Buffer contents after each operation', 'return values of undo/redo'],
  [('actions', 'log of edits and group marks', 'Buffer'), ('undone_actions', 'undone log', 'Buffer')])
p('C02', 'Buffer edits and queries are exact, in characters',
  'Inserting, removing, truncating, copying and appending change exactly the addressed characters and nothing else. Length, slicing, line splitting, display width, substring and prefix tests, last word, and conversion to and from strings and bytes agree with the text, for every Unicode text.',
  ['inputs'], 'every text and every valid position or range',
  'Tests use a few ASCII literals; off-by-one errors at the ends, multi-byte characters and unusual lengths are not sampled.',
  ['src/buffer.rs'], [('insert_raw/remove_raw', 'src/buffer.rs'), ('starts_with/contains/last_arg/lines/width', 'src/buffer.rs')], ['Buffer public methods'])
p('C03', 'Emacs key handling never crashes and keeps the cursor inside the text',
  'In Emacs mode no sequence of keys, on any initial text, history, prompt and terminal width, makes the editor panic, overflow or hang. After every key the cursor lies between 0 and the length of the line being edited.',
  ['inputs', 'histories', 'configurations'], 'every key sequence, every initial text including wide and multi-line text, every history, every terminal width',
  'The tests feed about ten fixed key strings; crashes come from combinations of history recall, search, suggestions, completion lists and widths.',
  ['src/editor.rs', 'src/keymap/emacs.rs', 'src/keymap/mod.rs'], [('KeyMap::handle_key', 'src/keymap/mod.rs'), ('cursor clamping', 'src/editor.rs display_impl')], ['handle_key returns', 'Editor::cursor'])
p('C04', 'Vi key handling never crashes and keeps the cursor on a character',
  'In Vi mode no sequence of keys, with any counts, on any initial text, history and terminal width, makes the editor panic, overflow or hang. After every key the cursor lies between 0 and the length of the line, and whenever Vi waits for a normal-mode command on a non-empty line it lies on a character.',
  ['inputs', 'histories', 'configurations'], 'every key sequence, every initial text, every history, every count',
  'The Vi tests are scripted examples; operators with pending counts, aborted commands, empty lines and history movement combine into far more states.',
  ['src/keymap/vi.rs', 'src/editor.rs', 'src/keymap/mod.rs'], [('mode stack', 'src/keymap/vi.rs'), ('no_eol clamp', 'src/editor.rs display_impl')], ['handle_key returns', 'Editor::cursor'])
p('C05', 'Emacs commands perform exactly their documented edit',
  'Every Emacs binding (insertion, character and word movement, start/end of line, delete before/after, kill to start/end, delete word, undo, revert, last-argument recall) changes text and cursor exactly as documented and nothing else. Word commands stop at the word boundaries given by the configured word divider, and repeated last-argument recall replaces the previous recall with the last word of the next older history entry.',
  ['inputs', 'histories'], 'every sequence of Emacs commands on every text and cursor position',
  'Only six Emacs examples are tested; no test covers kill commands, word deletion, revert or last-argument recall.',
  ['src/keymap/emacs.rs', 'src/editor.rs', 'src/context.rs'], [('handle_ctrl_key/handle_alt_key', 'src/keymap/emacs.rs'), ('handle_last_arg_fetch', 'src/keymap/emacs.rs'), ('delete_word_before_cursor', 'src/editor.rs')], ['current buffer and cursor after each key'])
p('C06', 'Vi motions land where Vi defines them, with counts',
  'The motions h l 0 ^ $ w W b B e E ge gE f F t T ; and , move the cursor to the position Vi defines for the text, classifying characters as blank, keyword (alphanumeric or underscore) or other. A count gives the same result as repeating the motion (for character searches it selects the count-th match), 0 and ^ both go to the start of the line, a character search that finds no match leaves the cursor, and ; and , repeat the last search in the same and the opposite direction.',
  ['inputs'], 'every text, cursor position, motion, target character and count',
  'Tests walk a few sentences; they do not cover all mixtures of character classes, line ends and counts.',
  ['src/keymap/vi.rs'], [('vi_move_word/vi_move_word_end', 'src/keymap/vi.rs'), ('find_char/find_char_rev', 'src/keymap/vi.rs')], ['Editor::cursor after the motion'])
p('C07', 'Vi operators change exactly the text they cover',
  'd and c with a motion delete exactly the text between the cursor and the motion target (including the target for inclusive motions), with counts before operator and motion multiplying; x, s, D, C, dd, cc, r and ~ with counts delete, replace or change case of exactly the characters Vi defines. All other characters stay in place, the cursor ends where Vi puts it, a command whose motion fails changes nothing, word motions do not leave the line, and c, s and C leave the editor inserting.',
  ['inputs'], 'every text, cursor position, operator, motion and counts',
  'The tests check some operators on fixed words; counts times motions times line ends are not covered.',
  ['src/keymap/vi.rs', 'src/editor.rs'], [('handle_key_delete_or_change', 'src/keymap/vi.rs'), ('pop_mode_after_movement', 'src/keymap/vi.rs'), ('delete_until(_inclusive)', 'src/editor.rs')], ['buffer and cursor after the command'])
p('C08', 'Vi undo and repeat work on whole commands',
  'In Vi normal mode u restores the text as it was before the last change command, where a whole insert session, a change command with its typed text, a replacement or a case change is one unit. Dot repeats the last change with the same effect as typing it again at the current cursor, and a count given to an insert command inserts the typed text that many times. Moving inside an insertion starts a new unit: only what is typed after it is repeated, once, and undone first.',
  ['histories', 'inputs'], 'every sequence of change commands, insert sessions, undo and repeat',
  'Tests exercise single commands followed by u or dot; nesting of counts, repeats, aborted commands and undo is open-ended.',
  ['src/keymap/vi.rs', 'src/buffer.rs'], [('set_mode/pop_mode undo groups', 'src/keymap/vi.rs'), ('repeat', 'src/keymap/vi.rs')], ['buffer after u and dot'],
  [('last_command/last_insert/last_count', 'what dot repeats', 'Vi'), ('undo groups', 'one per insert session', 'Buffer')])
p('C09', 'Reading a line returns exactly the edited line',
  'Enter returns exactly the text being displayed as the line, without a newline; with a backslash before the cursor it inserts a newline and continues. Ctrl-C fails with an interrupted error, Ctrl-D on an empty line fails with an end-of-file error and is otherwise an editing key, running out of keys returns the current text, and Enter first dismisses an open completion list.',
  ['inputs', 'histories'], 'every initial text and key sequence, in both key binding modes',
  'Tests type one word and press Enter; the outcome must hold after any editing, recall, search or suggestion.',
  ['src/context.rs', 'src/editor.rs', 'src/keymap/mod.rs'], [('handle_keys', 'src/context.rs'), ('handle_newline', 'src/editor.rs'), ('handle_key', 'src/keymap/mod.rs')], ['result of read_line'])
p('C10', 'Browsing and editing never alter stored history or lose the draft',
  'No key sequence modifies the stored history entries: editing a recalled entry changes only a private copy, and undo there goes back at most to the entry as recalled. Returning past the newest entry brings back the line being typed unchanged.',
  ['histories', 'inputs'], 'every key sequence in both modes over every history',
  'Tests check one edit of one recalled line; the property must hold for every combination of navigation, search, editing, undo and acceptance.',
  ['src/editor.rs'], [('hist_buf copy-on-write', 'src/editor.rs cur_buf_mut'), ('move_up/move_down', 'src/editor.rs')], ['Context.history after the keys', 'current buffer'],
  [('hist_buf/hist_buf_valid', 'private copy of the recalled entry', 'Editor'), ('new_buf', 'draft', 'Editor')])
p('C11', 'History navigation visits the matching entries in order',
  'With an empty draft, up moves to the next older entry and down to the next newer one and past the newest back to the draft. With a non-empty draft navigation visits exactly the entries that contain the draft, first those starting with it from newest to oldest, then the others from newest to oldest, and never an entry equal to it.',
  ['histories', 'inputs'], 'every history, every draft and every sequence of up and down',
  'Tests have at most three entries and one path.',
  ['src/editor.rs', 'src/history.rs'], [('get_history_subset', 'src/history.rs'), ('move_up/move_down', 'src/editor.rs')], ['current buffer after each key'])
p('C12', 'Incremental search finds exactly the entries containing the pattern',
  'While searching, the candidates are exactly the history entries that contain the typed pattern; reverse search starts at the newest and moves to older ones, forward search starts at the oldest and moves to newer ones, and both wrap around. Typing or deleting pattern characters keeps the current candidate if it still matches and otherwise goes on in the direction of the search; accepting makes the candidate the line being edited, and Enter returns it.',
  ['histories', 'inputs'], 'every history, pattern and sequence of search keys',
  'Search has no unit test that checks which entry is selected.',
  ['src/editor.rs', 'src/history.rs'], [('search/refresh_search', 'src/editor.rs'), ('search_index', 'src/history.rs'), ('accept_autosuggestion', 'src/editor.rs')], ['line after accepting', 'displayed suggestion'])
p('C13', 'The in-memory history is bounded, ordered and deduplicated as configured',
  'Pushing appends the entry as newest unless it equals the previous newest and duplicates are not wanted; afterwards the history holds the most recent entries in order and never more than the configured maximum. Removing duplicates of a text removes exactly the entries equal to it; prefix, substring and newest-match lookups return exactly the matching indices.',
  ['histories', 'inputs', 'configurations'], 'every sequence of pushes and removals, every configuration of limits and duplicate handling',
  'Tests push fixed words with default limits.',
  ['src/history.rs'], [('push', 'src/history.rs'), ('remove_duplicates', 'src/history.rs'), ('get_newest_match/search_index/get_history_subset', 'src/history.rs')], ['History.buffers', 'lookup results'])
p('C14', 'The history file round-trips the history',
  'Committing history to a file and loading that file yields the same single-line entries in the same order, keeping the newest ones up to the configured file maximum and skipping comment lines (those that start with #). Loading with append keeps existing entries, loading without replaces them, and duplicate suppression keeps exactly the newest copy of each entry.',
  ['histories', 'inputs', 'configurations'], 'every history content, every file content and every configuration of limits and duplicate handling',
  'Tests write a few fixed lines to a temporary file.',
  ['src/history.rs'], [('overwrite_history', 'src/history.rs'), ('load_history_file', 'src/history.rs'), ('truncate', 'src/history.rs')], ['file contents', 'History.buffers after loading'])
p('C15', 'Incremental appending keeps file and memory consistent',
  'With incremental append each pushed entry is in the file afterwards, and entries already in the file are lost only by the configured limit or duplicate compaction. With sharing, entries appended by another session appear after a reload (a file of another size is what tells that there is something to read), the entries stay as they are while they are browsed, and no entry pushed by either session is lost; a failing file system never loses in-memory entries or panics.',
  ['histories', 'fault_sequences', 'schedules'], 'every interleaving of pushes, reloads and commits by two sessions on one file, every failing file operation',
  'The tests run one session with fixed strings; compaction happens only on the 30th write and interleavings with another session are not tested.',
  ['src/history.rs', 'src/editor.rs'], [('push inc_append/compaction', 'src/history.rs'), ('load_history_file_test', 'src/history.rs'), ('deduplicate_history_file', 'src/history.rs')], ['file contents', 'History.buffers'])
p('C16', 'Completion only ever completes the word before the cursor',
  'Completing replaces the word before the cursor by the single candidate, or extends it to the longest common prefix of all candidates, or leaves the text and lists the candidates; repeated completion cycles through all candidates in order. Text outside the word is never changed, and the candidates offered are requested for exactly the word before the cursor.',
  ['inputs', 'configurations'], 'every line, cursor position and candidate list',
  'The completion tests cover the prefix helper only, with no editor in the loop.',
  ['src/editor.rs', 'src/complete.rs', 'src/util.rs'], [('complete', 'src/editor.rs'), ('find_longest_common_prefix', 'src/util.rs'), ('get_word_before_cursor', 'src/editor.rs')], ['buffer after Tab', 'argument of Completer::completions'])
p('C17', 'File name completion offers exactly the matching directory entries',
  'The file name completer offers exactly the entries of the addressed directory whose names start with the typed last component, with directories marked by a trailing slash and spaces escaped, each offered text extending what was typed. It never panics, for any typed text, quoting, or directory content, and a list completer offers exactly its words starting with the typed text.',
  ['inputs', 'configurations', 'fault_sequences'], 'every typed word, every directory content, unreadable directories, case sensitivity on or off',
  'No test covers the file name completer.',
  ['src/complete.rs'], [('FilenameCompleter::completions', 'src/complete.rs'), ('BasicCompleter::completions', 'src/complete.rs')], ['returned candidates'])
p('C18', 'Words and cursor positions are classified consistently',
  'The default word divider returns the maximal runs of characters delimited by unescaped spaces, in order, non-overlapping and within the line. The cursor position relative to these words is the unique classification: on the left edge, on the right edge, inside a word, or in space between the two nearest words.',
  ['inputs'], 'every line and every cursor position',
  'Tests check three or four literal lines.',
  ['src/context.rs', 'src/editor.rs'], [('get_buffer_words', 'src/context.rs'), ('CursorPosition::get', 'src/editor.rs')], ['get_buffer_words', 'CursorPosition::get'])
p('C19', 'The screen always shows prompt and line with the cursor in place',
  'After every key, the bytes written so far, interpreted by a terminal of the current width, show exactly the prompt followed by the line being edited (and any suggestion) with nothing left over from earlier output, and the terminal cursor is on the cell of the editing cursor. This holds for lines and prompts that wrap, end exactly at the right margin, contain several lines or wide characters. An open completion list is shown above them with every candidate in order and apart from the next, and only the selected one is marked.',
  ['inputs', 'configurations', 'histories'], 'every prompt, line, cursor position, key and terminal width',
  'No test interprets the written escape sequences; errors show up only at particular widths and cursor positions.',
  ['src/editor.rs', 'src/util.rs'], [('display_impl', 'src/editor.rs')], ['bytes written to the terminal'],
  [('term_cursor_line', 'row of the terminal cursor relative to the prompt', 'Editor')])
p('C20', 'Escape sequences in the prompt take no room',
  'Colour and title escape sequences in the prompt never shift the cursor: the prompt\'s width is that of its last line with complete escape sequences (CSI up to a letter, OSC up to BEL or ESC \\, other two-character sequences) removed. Text without escape sequences is unchanged by their removal.',
  ['inputs', 'configurations'], 'every prompt text',
  'Tests strip two literal prompts.',
  ['src/util.rs', 'src/editor.rs'], [('remove_codes/last_prompt_line_width', 'src/util.rs')], ['cursor column after drawing'])
p('C21', 'Suggestions come from history and acceptance inserts exactly them',
  'While typing a new line the suggestion is the newest history entry that is strictly longer than and starts with the line, and there is none otherwise. Accepting it at the end of the line makes the line equal to the suggestion with the cursor at its end, and until accepted it never becomes part of the line.',
  ['histories', 'inputs'], 'every history, line and accepting key',
  'Two fixed examples are tested.',
  ['src/editor.rs', 'src/history.rs', 'src/keymap/mod.rs'], [('current_autosuggestion/accept_autosuggestion', 'src/editor.rs'), ('get_newest_match', 'src/history.rs')], ['is_currently_showing_autosuggestion', 'line after accepting'])
p('C22', 'The Vi prompt indicator tells the truth',
  'With a Vi status prompt, the indicator drawn after each key says insert exactly when the next printable key would be inserted as text, and normal exactly when it would start a command. Prompts without status are drawn unchanged.',
  ['inputs', 'histories'], 'every key sequence in Vi mode',
  'No test checks the drawn indicator against the mode.',
  ['src/keymap/vi.rs', 'src/editor.rs'], [('set_editor_mode', 'src/keymap/vi.rs'), ('set_vi_mode', 'src/editor.rs')], ['bytes written', 'effect of the next key'])
p('C23', 'Terminal failures are reported, never fatal',
  'If any write or flush to the terminal fails at any point, the operation returns that error instead of panicking, and the stored history is unchanged. A key that cannot be read ends the read with that error.',
  ['fault_sequences', 'inputs'], 'every failing terminal operation during every key sequence in both modes',
  'No test injects a terminal failure.',
  ['src/editor.rs', 'src/context.rs', 'src/keymap/mod.rs', 'src/keymap/vi.rs'], [('io::Result propagation', 'src/editor.rs')], ['results of handle_key and read_line'])
p('C24', 'Completers observe every key and completion',
  'For every key the completer receives one event before and, unless the key ends reading with an error, one event after it is handled, carrying the key (Ctrl-H is reported as Backspace afterwards), and one event before each completion. The editor visible to the event is in the state before or after the key respectively, and changes the completer makes there are honoured.',
  ['histories', 'inputs'], 'every key sequence in both modes',
  'No test observes events.',
  ['src/keymap/mod.rs', 'src/editor.rs', 'src/event.rs'], [('handle_key on_event calls', 'src/keymap/mod.rs'), ('complete BeforeComplete', 'src/editor.rs')], ['Completer::on_event calls'])
p('C25', 'Editing through the Editor\'s methods is exact',
  'An application (or key map) that edits through the methods of Editor gets exactly the edit each names, for every line, cursor position, count and position: insertions at the cursor, deletions before and after it, to either end, until (or including) a position, of a word; motions by any count stop at the ends of the line; undo reverts the last edit and redo makes it again, the cursor at the end. The cursor stays inside the line (on a character if no_eol is set). Taking the line, or turning the editor into a String, gives exactly the line, never changes the stored history, and editing goes on with an empty line.',
  ['inputs', 'histories'], 'every line, cursor position, count and sequence of calls',
  'Tests call a few of the methods on one literal line each.',
  ['src/editor.rs'], [('insert_chars_after_cursor, delete_*, move_cursor_*, take_exec_buffer', 'src/editor.rs')], ['Editor::current_buffer', 'Editor::cursor', 'History'])
p('C26', 'Highlighting covers exactly the typed text',
  'With a highlighting function, what is typed is drawn through that function and nothing else is: the prompt keeps its own colours, the part of a suggestion that is not typed yet is always drawn in a colour of its own on all its lines, and the colour ends with the line, so that nothing after it is coloured.',
  ['inputs', 'histories'], 'every line, suggestion and key',
  'No test looks at the colours on the screen.',
  ['src/editor.rs'], [('display_impl', 'src/editor.rs')], ['bytes written to the terminal'])
p('C27', 'The default terminal is served faithfully and left as it was found',
  'A context created with Context::new reads from standard input and draws on standard output exactly as it would with any other terminal of that width (80 columns if the width is unknown): every key typed, also ahead of time, is handled once and in order, every byte is written in order however little a write takes, and everything is written before a key is waited for. The terminal is raw while keys are read and has its previous settings again afterwards, also if reading or writing fails, which is reported; what is no terminal is refused.',
  ['inputs', 'fault_sequences', 'configurations'], 'every sequence of keys, every failing or short operation on the terminal, every width',
  'The tests run with a terminal of their own; the default one needs a real terminal, and failures of it cannot be provoked.',
  ['src/context.rs', 'src/util.rs'], [('DefaultTty', 'src/context.rs'), ('terminal_width', 'src/util.rs')], ['result of read_line', 'bytes written to standard output', 'terminal attributes'])
if __name__ == '__main__':
    with open('properties.jsonl', 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['id']
            f.write(json.dumps(x) + '\n')
    print(len(P))
