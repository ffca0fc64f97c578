import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

E="src/editor.rs";V="src/keymap/vi.rs";M="src/keymap/mod.rs";EM="src/keymap/emacs.rs";B="src/buffer.rs";H="src/history.rs";C="src/context.rs";CO="src/complete.rs";U="src/util.rs"

p("P01","No key sequence crashes or hangs the editor; the cursor stays in the line",
"Whatever keys are pressed, in Emacs or Vi bindings, with any line, prompt, history, completion candidates and terminal width, handling each key returns: it never panics and never loops forever. After every key the cursor lies between 0 and the length of the line being edited, and in Vi normal mode it is on a character whenever the line is not empty.",
["inputs","histories","configurations"],
"every key sequence x initial line x history x candidate list x width x key bindings",
"The 171 unit tests press about 100 fixed sequences on ASCII lines at width 80; empty lines, multi-byte text, empty history entries, aborted operators and searches are combinations they never reach.",
[E,M,EM,V,B,U],
[("every edit goes through clamping in display","editor.rs display_impl"),("vi end-of-line restriction","Editor::no_eol"),("key dispatch","KeyMap::handle_key, Vi::handle_key_core, Emacs::handle_key_core")],
[("cursor","insertion point, between characters","Editor::cursor()"),("no_eol","vi normal mode: cursor may not be past the last character","Editor::no_eol")],
["KeyMap::handle_key return","Editor::cursor()","Editor::current_buffer()"])

p("P02","A text buffer is exactly the character sequence its edits define",
"After any series of insertions, removals, truncations and copies, a text buffer holds exactly the characters those operations yield on a plain character sequence, and removals report how many characters went. Every query on it - length in characters and bytes, character before or after a position, range, lines, display widths, last argument, prefix and substring tests, printing whole or from a position - answers for exactly that text; two buffers are equal, and hash alike, exactly when their texts are the same, however they were edited.",
["inputs","histories"],
"every sequence of buffer operations with in-range positions, over ASCII, multi-byte, double-width and newline characters",
"Tests insert one ASCII word at position 0 and make one removal; positions, multi-byte text, newlines and operation sequences are not explored.",
[B],[("insert/remove/truncate/copy","buffer.rs Buffer::insert, remove, truncate, copy_buffer, insert_from_buffer"),("queries","buffer.rs Buffer::range, lines, width, last_arg, starts_with, contains, print_rest")],
[("data","the characters","Buffer")],["Buffer public API"])

p("P03","Undo and redo of a buffer are exact inverses, one unit at a time",
"Each undo restores exactly the text before the most recent edit, or before the most recent complete (possibly nested) group of edits, that is not yet undone; each redo re-applies exactly what the last undo took back. A new edit discards what could be redone; reverting restores the text the buffer started with, after which redo can bring everything back; undo, redo and revert report false exactly when nothing is recorded for them.",
["histories"],
"every history of edits, balanced undo groups (nested, empty), undos, redos and reverts",
"Tests perform one group, one undo and at most one redo; interleavings of undo, redo, new edits and nested or empty groups are unbounded.",
[B],[("action log and undone log","buffer.rs Buffer::undo, redo, revert, push_action"),("groups","buffer.rs start_undo_group, end_undo_group")],
[("actions","recorded edits and group marks","Buffer.actions"),("undone","edits taken back, available to redo","Buffer.undone_actions")],["Buffer public API"])

p("P04","Undo in a session takes back whole commands and never more than was typed",
"In Emacs bindings each undo takes back exactly the most recent elementary edit of the line. In Vi bindings each undo takes back one whole command - an uninterrupted insertion with its deletions, a change, a replace or case toggle with its count - even after commands that were aborted half way. On a recalled history entry, undoing or reverting everything gives back the entry as it was recalled, never anything else. Whatever undo or redo changes, the cursor goes to the end of the line (in Vi normal mode on its last character).",
["histories","inputs"],
"every key sequence mixing edits, aborted operators, history moves and undo/redo/revert",
"Tests undo a dozen fixed vi sequences; none aborts an operator before undoing, and none undoes past the first edit of a recalled entry.",
[E,V,B],[("undo groups opened and closed by vi modes","vi.rs set_mode_preserve_last, pop_mode, normal_mode_abort, handle_key_insert"),("editor undo/redo/revert","editor.rs Editor::undo, redo, revert"),("copy of a recalled entry","editor.rs cur_buf_mut")],
[("action logs of the new line and of the recalled entry","what undo can take back","Editor.new_buf, Editor.hist_buf")],["line and cursor after each key"])

p("P05","Emacs keys have exactly their documented effect on line and cursor",
"In Emacs bindings every key inserts, deletes or moves exactly as documented: a character is inserted at the cursor, Backspace/Ctrl-H, Delete/Ctrl-D, Ctrl-U, Ctrl-K, Ctrl-W and Alt-Backspace delete exactly the character, line part or word they name (words being those the context's word divider gives), arrows, Ctrl-A/E/B/F, Home, End and Alt-B/F move exactly as named. Nothing else in the line changes, and unbound keys change nothing.",
["inputs","histories"],
"every Emacs key at every cursor position of every line, including escaped spaces, multi-byte and multi-line text, with the default and other word dividers",
"Six Emacs tests press Left, Alt-B, Alt-F, Ctrl-H and Enter on ASCII words.",
[EM,E,C],[("key table","emacs.rs handle_key_core, handle_ctrl_key, handle_alt_key, emacs_move_word"),("editing primitives","editor.rs insert_chars_after_cursor, delete_*, move_cursor_*")],
None,["line and cursor after each key"])

p("P06","Vi motions land where vi defines and never change the line",
"In Vi normal mode every motion - h l w W b B e E ge gE 0 ^ $ f F t T ; , arrows, Space, Backspace, Home, End, each with or without a count - puts the cursor exactly where its definition says (keyword words for lower case, blank-separated words for upper case) and never changes the line. A character search that finds nothing leaves the cursor where it was.",
["inputs"],
"every motion and count at every cursor position of every line",
"Each motion is tested on one or two ASCII lines with one count; empty lines, punctuation and blank runs, non-ASCII letters and repeated searches after failed ones are not covered.",
[V],[("word motions","vi.rs vi_move_word, vi_move_word_end"),("character search","vi.rs find_char, find_char_rev, handle_key_move_to_char"),("counts","vi.rs move_count, move_count_left, move_count_right")],
[("count","pending repeat count","Vi.count"),("last character search","what ; and , repeat","Vi.last_char_movement")],["line and cursor after each key"])

p("P07","Vi operators and inserts change exactly the text their command names",
"In Vi bindings d and c with any motion, dd, cc, x, s, D, C, r, ~ and the insert commands i I a A change exactly the range (or insert exactly the text) their definition names, inserted text being repeated count times and operator counts multiplying motion counts. Text outside the range is untouched, a command that is aborted or whose motion fails changes nothing, and a count or operator is consumed by its command and never carries over to a later one.",
["inputs","histories"],
"every operator x motion x count x line x cursor, and every command sequence",
"Tests cover one line per command; failing searches under an operator, operators on empty lines and leaking counts between commands are not tested.",
[V,E],[("operator pending state","vi.rs handle_key_delete_or_change, pop_mode_after_movement"),("mode stack","vi.rs ModeStack, set_mode, pop_mode, normal_mode_abort"),("range deletion","editor.rs delete_until, delete_until_inclusive")],
[("mode stack","insert, normal, operator pending, ...","Vi.mode_stack"),("counts","count, secondary_count","Vi")],["line and cursor after each key"])

p("P08","Vi dot repeats the last change",
"In Vi normal mode '.' performs the last change again at the cursor - same operator, motion, replacement character and inserted text, with the count given to '.' or else the original one - as if its keys had been typed again. Motions, undo and mode changes that are not changes do not alter what '.' repeats.",
["histories"],
"every sequence of changes, motions, undos and dots with counts",
"Tests repeat about a dozen fixed changes once; what is remembered after other commands intervene is not explored.",
[V],[("recorded command","vi.rs last_command, last_insert, last_count, current_command, repeat")],
[("last command","keys '.' replays","Vi.last_command, last_insert, last_count")],["line and cursor after each key"])

p("P09","History navigation recalls the right entries and loses nothing",
"Up and Down walk the history entries one at a time, newest first; with a non-empty new line only entries that contain it (those starting with it nearest), and walking back down past the newest restores the new line unchanged. Alt-< and Alt-> go to the oldest entry and back to the new line. Recalling, editing and undoing never change any stored history entry; edits made on a recalled entry apply to a private copy.",
["histories","inputs"],
"every interleaving of navigation, edits and both key bindings over every history",
"Only two vi tests press Up and Down, with one entry; filtered walks, edits on recalled entries and returning to the new line are untested.",
[E,H],[("navigation","editor.rs move_up, move_down, move_to_start_of_history, move_to_end_of_history"),("filter","history.rs get_history_subset"),("private copy","editor.rs cur_buf_mut")],
[("history location","new line or index of the recalled entry","Editor::current_history_location()")],["line, cursor, history location and stored entries after each key"])

p("P10","Incremental search finds exactly the matching entries, in order",
"During incremental search the candidates are exactly the history entries containing the typed text, a backward search starting from the newest and a forward one from the oldest; each further search key moves to the next candidate in its direction, wrapping around, and typing or deleting re-filters keeping the current match where it still applies. Accepting puts exactly the shown entry in the line with the cursor at its end (in Vi normal mode on its last character); with no match the typed text is kept.",
["inputs","histories"],
"every sequence of search, direction change, typing, deleting, moving and accepting over every history",
"No test exercises incremental search at all.",
[E,H,M],[("search state","editor.rs search, refresh_search, search_history_loc, clear_search"),("matching","history.rs search_index, buffer.rs contains"),("accept","editor.rs accept_autosuggestion, handle_newline")],
[("candidates and position","matching entries and the selected one","Editor.history_subset_index, history_subset_loc")],["line, match counter on screen, shown match, result of accepting"])

p("P11","The autosuggestion is the newest entry extending the line; accepting gives it",
"While the new line is being edited outside a search, a suggestion is offered exactly when some history entry strictly extends the typed line, and it is the newest such entry; no suggestion is offered for an edited recalled entry or an empty new line. Accepting it (Ctrl-F, or Right at the end of the line) makes the line exactly that entry with the cursor at its end (in Vi normal mode on its last character), and a suggestion that is not accepted never becomes part of the line.",
["inputs","histories"],
"every line, history and key sequence in both key bindings",
"Tests check the prefix predicate on three buffers; the choice of entry, staleness after edits and acceptance are untested.",
[E,H,B,M],[("choice","editor.rs current_autosuggestion, history.rs get_newest_match"),("prefix test","buffer.rs starts_with"),("accept","editor.rs accept_autosuggestion")],
[("suggestion","entry offered","Editor.autosuggestion")],["is_currently_showing_autosuggestion(), shown text, line after accepting"])

p("P12","Completion replaces exactly the word before the cursor with a candidate",
"Tab asks the completer for exactly the part of the current word (by the context's word divider) before the cursor; a single candidate replaces it, several candidates extend it to their longest common prefix if that is longer, and otherwise are listed sorted without duplicates and cycled through in order by further Tabs, wrapping around. Text outside that word never changes, no candidate means no change, any editing key ends the cycle, and Enter while the list is shown only closes it.",
["inputs","histories"],
"every line, cursor position, candidate list and key sequence",
"No test presses Tab or implements a completer that returns anything.",
[E,CO,U,M],[("completion cycle","editor.rs complete, get_word_before_cursor, delete_word_before_cursor, skip_completions_hint"),("common prefix","util.rs find_longest_common_prefix")],
[("completion list","candidates being cycled and the selected one","Editor.show_completions_hint")],["argument given to the completer; line, cursor and screen after each key"])

p("P13","The screen always shows prompt, line and cursor where they are",
"After every key the terminal shows the prompt followed by the line (and the rest of the suggestion, or the completion list above the prompt), wrapped at the terminal's width, each further line starting in the column the first one starts in, with the terminal cursor on the cell of the insertion point. Nothing from earlier drawings is left over (a completion list may stay until the next drawing after it is closed), and rows above the prompt are never overwritten; submitting leaves the cursor at the start of a row below the line, and clearing redraws on an empty screen.",
["inputs","histories","configurations"],
"every key sequence x width x prompt x history x line with wraps, multiple lines and double-width characters",
"No test looks at what is written to the terminal, apart from the tests of small helpers.",
[E,U],[("drawing","editor.rs display_impl, print_completion_list, search_prompt, clear"),("width","util.rs last_prompt_line_width, remove_codes; buffer.rs range_width")],
[("terminal cursor line","row of the cursor relative to the prompt","Editor.term_cursor_line")],["bytes written to the Tty, interpreted by a terminal"])

p("P14","Reading a line ends only as documented and returns exactly the edited line",
"Reading a line continues until Enter is pressed with no backslash before the cursor and no completion list open, and then returns exactly the line shown (the search match if searching, the recalled or edited history entry if on one) without its newline. Enter in a search first takes the match shown, the cursor going to its end; Enter after a backslash inserts a line break at the cursor instead; Ctrl-C ends the read with an interrupted error, Ctrl-D on an empty line with an end-of-file error, end of input returns the line so far, and no key after the end is consumed.",
["inputs","histories"],
"every key sequence fed through the read-line entry point, in both key bindings, several reads in a row on one context",
"Tests check Enter once per key binding and Ctrl-C/Ctrl-D on one line; continuation, closing lists and ends in the middle of a search or of history are untested.",
[C,M,E],[("loop","context.rs handle_keys"),("end of read","keymap/mod.rs handle_key, editor.rs handle_newline, From<Editor> for String")],
None,["result of read_line, keys consumed"])

p("P15","In-memory history keeps the newest entries in order within its limit",
"Pushing appends at the end, drops the oldest entries so that the history never exceeds its maximum after a push, and skips an entry equal to the newest one unless duplicates are enabled; nothing else is reordered, lost or altered. Queries (length, indexing, iteration, newest entry extending a text, entries containing a text, ordered subset for a text, removing all copies of an entry) answer exactly for that list.",
["histories","inputs"],
"every sequence of pushes, limit changes, duplicate removals, clears and queries",
"Tests push a few one-letter entries with one limit.",
[H],[("push","history.rs History::push"),("queries","history.rs get_newest_match, get_history_subset, search_index, remove_duplicates")],
[("entries","oldest first","History.buffers")],["History public API"])

p("P16","History files keep the newest entries, and loading gives back what was saved",
"Committing writes exactly the newest entries, up to the file limit, oldest first, one per line; loading that file gives back the same entries, keeps only the newest up to the limit, skips lines starting with '#' and lines that are no text, appends or replaces as asked, and keeps only the last copy of each entry when duplicates are not to be loaded. With incremental appending every pushed entry is in the file as soon as the push returns, including across the periodic compaction, which may only drop older copies of duplicates and the oldest entries beyond the limit.",
["histories","configurations"],
"every sequence of pushes, loads, commits and re-opens, under every combination of history options and limits",
"Two tests load four lines and commit 25 letters; incremental append, appending loads, duplicate-free loading and compaction (every 30th push) are untested.",
[H],[("load","history.rs load_history_file_test, set_file_name_and_load_history"),("save","history.rs overwrite_history, commit_to_file_path, push"),("compaction","history.rs push, deduplicate_history_file")],
[("file","lines on disk","history file"),("compaction counter","pushes since compaction","History.compaction_writes")],["file contents and History public API"])

p("P17","Sessions sharing a history file lose no entry and see each other's entries",
"When several sessions share one history file with incremental appending, an entry pushed by any session is in the file as soon as its push returns and is not lost or torn by pushes, reloads and compactions of the others, whatever their order and however the file accesses of two sessions interleave, except by the size limit or as an older copy of a duplicate. A session that reloads - also implicitly, by pressing Up or starting a search - sees exactly the entries of the file; browsing stays valid when the reloaded history is shorter.",
["schedules","histories"],
"every interleaving of pushes, reloads, compactions, opens and browsing by two or more sessions on one file",
"No test uses a shared history file or two sessions.",
[H,E],[("append","history.rs push"),("reload when the size changed","history.rs load_history, load_history_file_test"),("implicit reload","editor.rs freshen_history")],
[("file size seen","when a reload is needed","History.file_size")],["file contents, History public API, Editor keys"])

p("P18","File name completion lists exactly the matching directory entries",
"File name completion returns exactly the entries of the directory named by the typed path (relative to the given working directory, or the current one) whose names start with its last component, compared with or without case as configured, each as the full replacement for the typed word: the typed directory part, the entry's name, a '/' after directories, spaces escaped by backslashes. A typed backslash-space or quoted name is understood as the plain name, '..' and trailing slashes list that directory, and any typed text, existing or not, yields a list and never a crash.",
["inputs","configurations"],
"every typed text over directory trees with spaces, dots, case variants and non-ASCII names",
"No test uses the file name completer.",
[CO],[("listing","complete.rs FilenameCompleter::completions"),("prefix list","complete.rs BasicCompleter::completions")],
None,["return value of completions()"])

p("P19","A failing terminal ends the read with its error and nothing is damaged",
"If reading a key, writing, flushing or asking the width of the terminal fails at any point, the key being handled (or the read) ends with exactly that error: no panic, no swallowed error, no further reading (only the width asked for first, to clear the prompt's row, may fall back to 80 columns). The history and its file are unchanged by the failure, and the same context can read the next line normally once the terminal works again.",
["fault_sequences","inputs"],
"every position at which a terminal operation of a session can fail, for every key sequence",
"The tests' terminal never fails.",
[E,C,M,V],[("error propagation","? on every terminal operation in editor.rs, context.rs handle_keys, vi.rs pop_mode")],
None,["result of read_line/handle_key with a terminal failing at the n-th operation"])

p("P20","Words and the cursor's place among them are classified consistently",
"The default word division splits any line into ordered, non-overlapping, non-empty words separated by unescaped spaces, a space directly after a backslash staying inside its word. For every cursor position and any ordered list of words exactly one of 'in word', 'left edge', 'right edge', 'in space' is reported, with the index of that word or of the nearest words on either side.",
["inputs"],
"every line and every cursor position",
"One test with nine position examples on three lines.",
[C,E],[("division","context.rs get_buffer_words"),("classification","editor.rs CursorPosition::get")],
None,["get_buffer_words, CursorPosition::get, Editor::get_words_and_cursor_position"])

p("P21","Key callbacks bracket every key and see the editor's true state",
"For every key handled the completer is told once before (with the key as pressed) and, unless the key ended the read with an error, once after, and is told before each completion is computed; no key goes unreported and none is reported twice. The editor it is given shows the line, cursor and history location of that very moment, and changes it makes through the editor take effect as if typed there.",
["histories","inputs"],
"every key sequence in both bindings, with callbacks that observe or edit",
"No test installs a callback.",
[M,CO,E,"src/event.rs"],[("events","keymap/mod.rs handle_key; editor.rs complete; event.rs")],
None,["sequence of on_event calls"])

p("P22","Highlighting and escape codes are cosmetic only",
"A colouring function is only ever given text of the line being shown, and neither its output (when it only adds escape codes) nor escape codes in the prompt (control sequences, character set choices, system commands ended by a bell or a string terminator) change the returned line, the cursor, or the position of anything on screen. Typed text is passed through it, while the not yet accepted rest of a suggestion is not passed through it but shown in the suggestion colour.",
["inputs","configurations"],
"every line, suggestion, prompt with escape codes and width-preserving colouring function",
"No test passes a colouring function; the prompt tests use plain text.",
[E,U],[("colouring","editor.rs display_impl"),("escape codes","util.rs remove_codes, last_prompt_line_width")],
None,["screen with and without colouring; arguments of the colouring function"])

p("P23","Alt-. inserts the last argument of history entries and replaces only its own",
"In Emacs bindings Alt-. inserts at the cursor the last space-separated word of the newest history entry (or of the recalled entry); pressed again directly after, it replaces exactly the text it inserted with the last word of the next older entry, stopping at the oldest. It never removes or alters any other text, whatever the line and cursor position, and any other editing or movement key ends the series.",
["inputs","histories"],
"every line, cursor position, history and sequence of Alt-. with other keys",
"No test presses Alt-. .",
[EM,B],[("fetch","emacs.rs handle_last_arg_fetch"),("last argument","buffer.rs last_arg")],
[("fetch state","which entry was fetched last","Emacs.last_arg_fetch_index")],["line and cursor after each key"])

p("P24","The Vi mode indicator shows the mode that will interpret the next key",
"With a Vi status prompt the indicator shown after every key is the insert indicator exactly when the next key will be taken by insert mode and the normal indicator when it will be taken as a command; while a command is incomplete it keeps the indicator it was started under or entered. Replacing the prompt during editing keeps the mode shown.",
["histories"],
"every Vi key sequence",
"No test looks at the displayed mode.",
[V,E],[("indicator","vi.rs set_editor_mode; editor.rs set_vi_mode, set_prompt, ViStatus")],
[("mode","top of the mode stack","Vi.mode_stack")],["prompt prefix on screen"])

with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
