#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One source of truth for ids, titles and statements."""
import json, os, sys
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
            mechanism=[dict(name=a, where=b) for a,b in mechanism],
            observe_at=observe or [], hook_needed=hook)))

ED="src/editor.rs"; BUF="src/buffer.rs"; HIS="src/history.rs"; CTX="src/context.rs"
VI="src/keymap/vi.rs"; EM="src/keymap/emacs.rs"; KM="src/keymap/mod.rs"; CO="src/complete.rs"; UT="src/util.rs"; EV="src/event.rs"

prop("C01","No key sequence makes a line-editing session panic or hang",
 "Whatever keys are pressed, in either key map and in any order, and whatever the history, initial text, prompt, completions and terminal width (at least one column) are, handling a key never panics, aborts or recurses without end. Every key is handled in a bounded amount of work for the size of the line, history and count involved.",
 ["inputs","configurations"],"all key sequences (counts up to a few hundred), both key maps, histories, initial buffers, prompts, completers, widths >= 1",
 "The tests drive a few dozen fixed key sequences over ASCII text in an 80-column terminal; crashes need combinations of mode, history position, multi-byte text, suggestion and width.",
 [ED,VI,EM,KM,BUF,CO,UT],[("index and slice arithmetic on cursor, buffer, suggestion",ED),("mode stack and counts",VI)],
 [("cursor","position between characters",ED),("mode_stack","vi modes",VI)],["KeyMap::handle_key","Editor::new_with_init_buffer","EditorContext::read_line"])

prop("C02","Reading a line ends with exactly the right outcome",
 "Enter returns exactly the text shown as the current line, without a trailing newline, except that directly after a backslash it inserts a newline into the line and editing goes on, and while a list of completions is displayed it only dismisses that list. Ctrl-C ends the session with an Interrupted error; Ctrl-D does so with an UnexpectedEof error when the line is empty and only then. When the terminal has no more keys the text so far is returned, and an error from reading a key is returned as it is.",
 ["inputs","histories"],"all ways of ending a session, at any cursor position, in both key maps, on new, recalled and searched lines",
 "Tests check Enter, Ctrl-C and Ctrl-D once each on a fixed line, and never through read_line.",
 [ED,KM,CTX],[("handle_newline",ED),("handle_key dispatch",KM),("handle_keys loop",CTX)],
 None,["return value of EditorContext::read_line / read_line_with_init_buffer / handle_keys"])

prop("C03","Emacs keys edit and move exactly as documented by their commands",
 "In the Emacs key map each key changes the line and the cursor exactly as its command says: inserting a character; moving by character, by word, to either end; deleting the character before or after the cursor, everything before it, everything after it, or the word before it (skipping spaces); and Alt-. inserting the last argument of the newest history entry (or of the recalled one), where each immediate repeat replaces exactly what was inserted with the last argument of the next older entry. No other text is touched, moves and deletions at an edge change nothing, and unbound keys change nothing.",
 ["inputs","histories"],"all sequences of Emacs editing keys over any text (Unicode, several lines, repeated and escaped spaces)",
 "Six tests press a handful of keys on one ASCII line each; Alt-., Ctrl-U/K/W, Alt-F/B at edges and with odd spacing are never tried in combination.",
 [EM,ED,CTX],[("handle_ctrl_key / handle_alt_key / handle_last_arg_fetch",EM),("emacs_move_word",EM),("delete_* and move_* methods",ED)],
 [("last_arg_fetch_index","entry of the last Alt-.",EM)],["Editor::current_buffer, Editor::cursor after each KeyMap::handle_key"])

prop("C04","Vi modes and motions put the cursor exactly where vi's rules say",
 "In the Vi key map, normal-mode motions (h l w W b B e E ge gE 0 ^ $ f F t T ; , and the arrow, Home and End keys, each with its count; 0 and ^ both mean the first character) move the cursor to exactly the character their definition names and leave the text unchanged; a motion whose target does not exist leaves the cursor where it was or at the edge of the line. i a I A enter insert mode at the right place, Esc leaves it one character to the left, and an indicator in the prompt always names the current mode. The cursor is always within the line, and in normal mode on a character of it unless it is empty.",
 ["inputs"],"all sequences of vi motions, counts and mode switches over any text",
 "Tests cover each motion on one or two ASCII lines; word classes, edges, counts and repetition of f/t interact in ways samples do not settle.",
 [VI,ED],[("vi_move_word / vi_move_word_end / find_char / find_char_rev",VI),("no_eol clamp in display",ED),("set_vi_mode",ED)],
 [("mode_stack","current mode",VI),("no_eol","cursor may not pass the last character",ED),("last_char_movement","target of ; and ,",VI)],
 ["Editor::cursor, current_buffer, displayed prompt after each key"])

prop("C05","Vi operators and edits change exactly the text they designate",
 "In the Vi key map d and c with a motion (and counts on either or both) remove exactly the characters between the cursor and the motion's target, including the target character for the inclusive motions e E f t ge gE; x, D, C, s, r, ~, dd and cc change exactly the characters they name, and c, C and s go on in insert mode. A character search that fails, an unknown key or Esc after an operator cancels it and changes nothing.",
 ["inputs"],"all normal-mode edit commands with any counts, motions, cursor positions and texts",
 "Each command is tested on one or two lines; edges (empty line, last character, target not found, count too large, non-ASCII case change) are mostly untested.",
 [VI,ED,BUF],[("handle_key_delete_or_change, pop_mode_after_movement",VI),("delete_until, delete_until_inclusive",ED)],
 [("Mode::Delete(start)","operator waiting for a motion",VI)],["Editor::current_buffer, cursor after each key"])

prop("C06","Vi counts and the dot command repeat the last change faithfully",
 "A count before an insert command repeats the keys typed in insert mode that many times when it is left, and counts before an operator and its motion multiply. The dot command has exactly the same effect as typing the last change again at the current cursor position, with that change's count, or with the count given to dot instead; it leaves the editor in normal mode and can itself be repeated. (Left open: inserts that took a line feed after a backslash, a completion or a suggestion.)",
 ["inputs","histories"],"all changes (inserts with deletions and moves, x D C s r ~, d/c with motions) repeated at any later position",
 "Tests repeat about a dozen fixed commands on one line; the dot command replays a recorded key log whose contents depend on the whole history of modes, counts and movements.",
 [VI],[("repeat, last_command, last_insert, last_count, movement_reset",VI)],
 [("last_command","keys of the last change",VI)],["Editor::current_buffer, cursor after each key"])

prop("C07","Undo, redo and revert walk exactly through the line's earlier contents",
 "Each undo takes the line back to precisely its content before the most recent change still in force, where one vi insert session or command (between cursor movements), or one group, counts as a single change; each redo reinstates precisely what the last undo removed, and a new change leaves nothing to redo. A change that found nothing to alter may count as one; taking over a suggestion, a completion or a fetched argument may count as two. Revert, or undoing until nothing is left, gives back the text the line started with: the initial text for a new line, the history entry for a recalled one; reverting the whole history does so for every entry an application has edited. The cursor goes to the end of what was brought back, and stays where it is if there was nothing to undo or redo.",
 ["histories","inputs"],"all interleavings of edits, groups (nested, empty), undo, redo and revert, through the buffer, the editor and both key maps",
 "Tests undo at most three steps of one kind; group nesting, empty groups, aborted commands, recalled lines and redo after mixed edits are only sampled.",
 [BUF,ED,VI,EM],[("action log, undo/redo, groups",BUF),("undo groups around insert mode",VI),("cur_buf_mut copying a history entry",ED)],
 [("actions / undone_actions","the edit log",BUF)],["Buffer contents after undo/redo","Editor::current_buffer after Ctrl-X, Alt-R, u"])

prop("C08","After every key the terminal shows exactly the prompt, line and cursor",
 "After every key the terminal, started anywhere and of whatever width its size query reports (also another than before, once the window was resized), shows the prompt followed by the current line (continuation lines indented by the prompt's width, any suggestion or search match after it, a completion list with its entries apart above it) and nothing else from earlier redraws, with everything above the prompt untouched; it scrolls only as far as that needs. Mouse reporting and application cursor keys an earlier program left on are off after every redraw, since their sequences are not understood as keys. The terminal's cursor stands on the cell of the character at the editor's cursor. A completion list ended by a key may stay until the next redraw. A colouring callback changes colours only.",
 ["inputs","configurations"],"all edit sequences, prompts (coloured, multi-line, vi status; set anew during the session), completion lists, and text of printable characters and line feeds of any length that fits the screen, all widths of at least a few columns",
 "No test looks at the terminal output at all.",
 [ED,UT],[("display_impl width arithmetic",ED),("last_prompt_line_width, remove_codes",UT),("print_completion_list",ED)],
 [("term_cursor_line","row of the terminal cursor relative to the prompt",ED)],["bytes written to the Tty, fed to a terminal emulator"])

prop("C09","Submitting, interrupting or clearing leaves a clean screen",
 "When a line is submitted or interrupted the screen keeps the prompt and the whole accepted line, shows no suggestion, and the terminal's cursor is at the start of a fresh empty row directly below the line, so that following output or the next prompt overwrites none of it (one more empty row may follow a line that exactly fills its last row). Ctrl-L leaves a screen with nothing on it but the redrawn prompt and line starting at the top row, and changes neither text, cursor nor history position.",
 ["inputs","configurations"],"all lines, suggestions, widths and cursor positions at the moment of Enter, Ctrl-C, Ctrl-D or Ctrl-L",
 "No test looks at the terminal output at all.",
 [ED,KM],[("handle_newline, display_impl(false)",ED),("clear",ED)],None,["bytes written to the Tty, fed to a terminal emulator"])

prop("C10","The autosuggestion is the newest history entry extending the line",
 "While a new, non-empty line is edited, the suggestion shown is the newest history entry that begins with the line's text and is longer than it, and none is shown if there is no such entry; while a recalled entry is being changed none is shown. Accepting it (Right at the end of the line, or Ctrl-F) makes the line equal to that entry with the cursor at its end, and no other key lets the suggestion affect the text.",
 ["inputs","histories"],"all histories and edit sequences, both key maps, cursor anywhere",
 "No test involves a suggestion.",
 [ED,HIS,BUF,KM],[("current_autosuggestion, accept_autosuggestion",ED),("get_newest_match",HIS),("starts_with, insert_from_buffer",BUF)],
 [("autosuggestion","entry shown",ED)],["screen contents, Editor::is_currently_showing_autosuggestion, current_buffer"])

prop("C11","Browsing history visits the right entries in the right order and back",
 "On an empty new line Up steps through all history entries from newest to oldest and Down back; on a non-empty one Up visits first the longer entries beginning with that text, newest first, then the other entries containing it, newest first. Going Down past the newest returns to the new line with its text intact, Alt-< and Alt-> jump to the oldest entry and back to the new line, and changes made to a recalled entry are dropped on moving away from it. Clearing the screen or accepting a suggestion does not lose the place.",
 ["histories","inputs"],"all histories and sequences of browsing, typing and editing keys in both key maps",
 "Only two vi tests press Up at all, with one entry or none.",
 [ED,HIS],[("move_up, move_down, move_to_start_of_history, move_to_end_of_history",ED),("get_history_subset",HIS)],
 [("cur_history_loc, history_subset_index, history_subset_loc, hist_buf_valid","place in history",ED)],
 ["Editor::current_buffer, current_history_location after each key"])

prop("C12","Incremental search finds all and only the matching entries, in order",
 "Ctrl-R and Ctrl-S start a search whose matches are exactly the history entries containing the typed text (none while it is empty); the prompt shows the text and the place among the matches. Reverse search starts at the newest match, forward search at the oldest (or at the recalled entry, found by browsing with that text), further Ctrl-R / Up and Ctrl-S / Down step to the next older or newer match and wrap around, and changing the text keeps the current match if it still matches and otherwise moves on in the search direction, or to the first match if there is none further on. Enter submits the match shown, Right or Ctrl-F makes it the line to edit.",
 ["histories","inputs"],"all histories, search texts and key sequences during a search",
 "No test performs a search.",
 [ED,HIS,BUF],[("search, refresh_search, search_prompt, accept_autosuggestion",ED),("search_index",HIS),("contains",BUF)],
 [("history_subset_index, history_subset_loc","matches and current match",ED)],["screen contents, returned line"])

prop("C13","Editing a line never alters the stored history",
 "Unless history sharing is on, no key sequence, completion, search, suggestion or way of ending the line (including taking the line out of the editor) changes the number, order or content of the history entries or the history file; lines become history only when the caller pushes them.",
 ["inputs","histories"],"all key sequences, both key maps, all outcomes",
 "No test compares the history before and after a session.",
 [ED,CTX],[("hist_buf working copy of a recalled entry",ED),("take_exec_buffer",ED)],None,["Context.history before and after"])

prop("C14","In-memory history keeps the newest entries in order within its limit",
 "Pushing a line appends it as the newest entry, except that a line equal to the newest entry is skipped unless duplicate entries are allowed; after any accepted push the history holds at most the configured maximum, and exactly the newest of the entries accepted so far in the order pushed. Lookups (prefix match, substring matches, indexing, iteration, removal of duplicates) agree with that sequence.",
 ["histories","configurations"],"all sequences of pushes, limits changes, clears and duplicate removals",
 "One test pushes two alternating lines with a limit of two.",
 [HIS],[("push, remove_duplicates, get_newest_match, get_history_subset, search_index",HIS)],[("buffers","entries, oldest first",HIS)],["History public API"])

prop("C15","Saving and reloading the history file preserves the entries",
 "Committing writes the newest entries (at most the configured file maximum), one per line in order, and loading such a file gives back exactly these single-line entries, replacing the old ones or appended after them as asked. Lines starting with # and lines that are not valid UTF-8 are skipped without losing any other line, only the newest entries up to the file maximum are kept, and with duplicate loading off only the newest occurrence of each entry remains. A path that is no readable file (missing, a directory, a dangling link) gives no entries and is survived: later pushes still work in memory.",
 ["inputs","configurations"],"all entry lists, file contents, limits and flag settings; entries are single lines not starting with #",
 "Two tests write or read one small ASCII file.",
 [HIS],[("load_history_file_test, overwrite_history, truncate",HIS)],None,["file bytes, History entries"])

prop("C16","Incremental append puts every pushed entry in the history file exactly once",
 "With incremental append on, when a push that is accepted returns, its entry is the last line of the history file written by that session and no earlier entry has been lost or torn, however many entries were pushed before and whether or not sharing is on; several sessions (threads or processes) appending to one file at the same time with duplicates allowed lose, duplicate or interleave nothing. With duplicate loading off the file is compacted from time to time, which only removes older duplicates and the oldest entries beyond the file maximum, and often enough that, from the thirtieth push of a session on, no more than thirty entries beyond that maximum and no more than thirty older duplicates are in the file.",
 ["histories","schedules","configurations"],"all push sequences across compaction points, all flag combinations, concurrent appenders (without compaction), entries of any length",
 "No test turns incremental append on.",
 [HIS],[("push: append and compaction",HIS),("deduplicate_history_file, overwrite_history",HIS)],[("compaction_writes","pushes since the last compaction",HIS)],["file contents after each push"])

prop("C17","Shared history: entries of other sessions appear at the next use",
 "With sharing and incremental append on, every entry appended to the history file by any session is available, in file order and exactly once, when another session next starts browsing or searching; what that session sees is exactly the newest lines of the file, never stale beyond that point (a change is noticed by the file's length), and a file that shrank or was emptied meanwhile neither crashes nor corrupts the session.",
 ["histories","schedules"],"all interleavings of pushes by several sessions with browsing, searching, submitting in each",
 "No test turns sharing on or uses two sessions.",
 [HIS,ED],[("freshen_history, history_fresh",ED),("load_history, file_size",HIS)],None,["Editor::current_buffer during browsing, History entries"])

prop("C18","Tab completion replaces only the word before the cursor, predictably",
 "Tab asks the completer for the part of the word that lies before the cursor; a single candidate replaces that part, several candidates extend it to their longest common prefix if that is longer and begins with it, and otherwise the sorted, de-duplicated candidates are listed and further Tabs put each in turn in its place, wrapping around. Text outside that part never changes, any other key accepts what is there and ends the cycle, and no candidate means no change.",
 ["inputs","configurations"],"all lines, cursor positions and candidate lists",
 "No test presses Tab with a completer that returns anything.",
 [ED,UT,CO],[("complete, delete_word_before_cursor",ED),("find_longest_common_prefix",UT)],[("show_completions_hint","candidates being cycled",ED)],["Editor::current_buffer, cursor; argument of Completer::completions"])

prop("C19","File name completion lists exactly the matching directory entries",
 "For any partial path, quoted or with backslash-escaped spaces, the file name completer returns exactly the entries of the directory it names (relative to the working directory, or absolute) whose names begin with its last component, honouring the case setting; each as the typed directory (redundant slashes and dots may be left out) followed by the entry's name, with a slash after directories and spaces escaped; each time as the files are then. It never fails or panics; an unreadable directory gives no completions.",
 ["inputs","configurations"],"all partial paths over directory trees with odd names (spaces, dots, Unicode, upper case, hidden)",
 "No test uses the file name completer.",
 [CO],[("FilenameCompleter::completions",CO)],None,["return value of Completer::completions"])

prop("C20","Words and cursor positions partition every line consistently",
 "The default word division splits a line into its maximal stretches free of unescaped spaces, in order, non-empty and non-overlapping; a backslash-escaped space belongs to its word. The cursor's classification (inside, at the left or right edge of a given word, or between two given neighbouring words) is always the one that fits these words and the cursor position.",
 ["inputs"],"all lines and cursor positions",
 "Nine fixed cases on four strings.",
 [CTX,ED],[("get_buffer_words",CTX),("CursorPosition::get",ED)],None,["get_buffer_words, CursorPosition::get, Editor::get_words_and_cursor_position"])

prop("C21","On a real terminal a session round-trips and restores the terminal's state",
 "With the default terminal, bytes typed on a real terminal give the line they spell, the screen shows it, and the terminal is in raw mode while the context lives and has exactly its previous mode back when the context is gone, however the session ended. A change of the terminal's width between keys is honoured at the next redraw.",
 ["inputs","configurations"],"typed byte streams, window sizes, and session outcomes on a pseudo-terminal",
 "Tests replace the terminal with one that has no input; no test opens a terminal.",
 [CTX,UT],[("DefaultTty",CTX),("terminal_width",UT)],None,["pseudo-terminal: bytes, termios"])

prop("C22","Event callbacks, flushing and colouring follow the key protocol",
 "For every key the completer's event callback is called once before the key takes effect and, unless the key ended the session with an error, once after, in order, with a before-completion event in between exactly for Tab; in the callbacks the editor shows the state before and after the key, and what a callback does to the editor takes effect at that point as if done directly. Output of a key is flushed by the time it has been handled, and the colouring callback sees only text of the line and never changes what is returned.",
 ["inputs"],"all key sequences in both key maps",
 "No test registers an event or colour callback.",
 [KM,ED,EV],[("handle_key",KM),("complete",ED),("display_impl",ED)],None,["Completer::on_event, Tty::flush, ColorClosure"])

prop("C23","A buffer behaves as the sequence of its characters under every operation",
 "For all texts and valid positions, insert, remove, truncate, copy and append, and a single action done or undone, change exactly the designated characters, and every query (characters before/after, ranges, lines, lengths, bytes, widths, prefix, containment, last argument, printing, conversions, equality) gives the answer computed from the plain character sequence; equality, hashing and conversion ignore edit history.",
 ["inputs","histories"],"all operation sequences on buffers of any Unicode text",
 "Unit tests use one seven-letter ASCII string.",
 [BUF],[("Buffer methods",BUF)],[("data","characters",BUF)],["Buffer public API"])

prop("C24","Terminal I/O failures surface as errors and damage nothing",
 "If the terminal fails at any write, flush, size query or key read, the operation in progress returns that error instead of panicking or ignoring it (the first size query of a new editor may be answered by a guess instead), and after it the history is unchanged and the editor can go on being used, with the line holding what it held before or after the interrupted key or an intermediate step of it.",
 ["fault_sequences","inputs"],"a failure injected at every single I/O operation of a session, for many sessions",
 "The test terminal never fails.",
 [ED,VI,KM,CTX],[("? on every terminal operation",ED)],None,["Result of KeyMap::handle_key / read_line under fault injection"])

prop("C25","The editor's operations do what they say, in every state, for any key map",
 "An application's own key map gets every key but those common to all key maps, once and in order, and each operation of the editor it calls (inserting, deleting before, after, up to a position, the word before; moving by any number or to any place; moving in history; searching; accepting a suggestion; clearing; editing the buffer directly; changing the prompt; asking whether the line is done) changes text, cursor, place in history and search exactly as documented, with positions and counts beyond the line meaning its end, whatever state the editor is in; the screen shows the result. Words are those of the context's word divider.",
 ["inputs","histories"],"all sequences of keys and operations with any argument, from new lines, recalled entries, searches and completion lists, for any word divider",
 "Unit tests call some of the operations with one fixed line each; no test has a key map of its own that edits.",
 [ED,KM,CTX],[("Editor's pub fn",ED),("KeyMap::handle_key",KM),("handle_keys",CTX)],None,["KeyMap::handle_key_core, Editor's public methods, bytes written to the Tty"])

prop("C26","Every line is read as if it were the first",
 "Reading a line depends on nothing but the history, settings and arguments of that read: a line read with a context that was used before -- for other key bindings, prompts, widths, colours and completers, and whether those lines were entered, interrupted, or ended by a failing terminal -- gives the same result, the same bytes on the terminal, the same callbacks and reads the same keys as with a new context of the same history. Reading through read_line does the same as feeding the keys to the key map one by one.",
 ["histories","inputs","fault_sequences"],"all sequences of reads on one context, with the history growing between them",
 "No test reads two lines with one context.",
 [CTX,ED,KM],[("read_line_with_init_buffer, handle_keys",CTX),("Editor::new_with_init_buffer",ED)],None,["EditorContext::read_line, bytes written to the Tty, Completer callbacks"])

prop("C27","Suggestions, matches and the chosen completion are told apart from the text",
 "On the terminal the line's own text has the colours the colouring callback gave it (plain without one), what a suggestion adds to it is in another colour throughout, on every row it takes up, and so is the match of a search; the text searched for shows by its colour whether something is found. In a list of completions exactly the one that is in the line is highlighted, and none before the first is chosen. Every redraw leaves the terminal's colours reset.",
 ["inputs","configurations"],"all edit sequences, histories, completions, texts and widths",
 "No test looks at the terminal output at all.",
 [ED],[("display_impl",ED),("print_completion_list",ED),("search_prompt",ED)],None,["bytes written to the Tty, fed to a terminal emulator that keeps the colours of its cells"])

prop("C28","What was entered in one session is there in the next",
 "An application that reads lines, pushes each to the history and saves the history (when it ends, or each line as it is entered) finds in its next session, and with sharing in one running at the same time, exactly the lines entered before: oldest first, up to the limits set, duplicates as set, however each was entered - typed with corrections, recalled, edited after recall, suggested, searched, completed, continued - and none that was cancelled. A line of several rows comes back as its rows and one that begins with # does not come back, as the file's format has it. Every recalled, suggested or found line is the one the history has at that place, each call returns the line that was on the terminal and reads no key beyond it, and the terminal's transcript has, in order, every prompt with its line and what the application printed in between, and nothing else.",
 ["inputs","configurations","histories"],"all sequences of sessions, settings and ways to enter a line",
 "Tests start from an editor with a few entries in memory; none reads a line, saves it and reads it again in a later session.",
 [CTX,HIS,ED],[("read_line_with_init_buffer",CTX),("set_file_name_and_load_history",HIS),("commit_to_file",HIS),("push",HIS),("move_up",ED)],None,["returned lines, history entries and the file after every line, bytes written to the Tty fed to a terminal emulator over the whole session"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P),"properties")
