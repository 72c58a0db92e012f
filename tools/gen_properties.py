#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": hook}})
G="src/rules/game.rs"; B="src/pieces/goban.rs"; GR="src/pieces/group.rs"; T="src/pieces/territory.rs"; U="src/pieces/util.rs"
R="src/rules/mod.rs"; BU="src/rules/game_builder.rs"; S="src/rules/sgf_bridge.rs"; D="src/rules/dead_stones.rs"; Z="src/pieces/zobrist.rs"

p("C01","Legal moves are exactly those the active rules allow",
  "In every position a game can reach, the list of legal moves contains exactly the empty points whose play is neither a suicide (when suicide is forbidden) nor an immediate ko recapture (when ko is forbidden), whichever of these rules are active. Listing the legal moves, checking a single point and attempting the move always agree, and a refusal names a reason that really applies to that move (while the game is paused every attempt is refused because it is paused).",
  ["histories","inputs","configurations"],
  "every sequence of plays and passes, every point, every combination of the ko/suicide flags, every board size",
  "The tests check a handful of hand-made ko and suicide shapes on 9x9/19x19; legality depends on the whole history and neighbourhood of every point.",
  [G,B,GR],[("legals / legals_by / check_point_by / try_play",G),("check_suicide, check_ko",G)],
  [("ko_point","point that may not be retaken",G),("liberties","liberty set per group",GR)],["Game::legals","Game::legals_by","Game::check_point","Game::check_point_by","Game::try_play","Game::check_suicide","Game::will_capture"])

p("C02","A move places one stone and captures exactly the breathless groups",
  "After a play, the board is the previous board plus the played stone, minus every opposing group left without a liberty, and, where suicide is permitted and nothing was captured, minus the player's own group if that is left without a liberty; no other point changes. The turn passes to the opponent, and a pass changes no point.",
  ["histories","inputs","configurations"],
  "every legal play in every reachable position: single and multiple captures, captures of very large groups, captures that free the played stone, on boards of every shape",
  "The tests replay a few recorded games and shapes; which groups die depends on every adjacent group's liberty count, including groups larger than anything the tests build.",
  [G,B,GR],[("play",G),("push_wth_feedback, remove_captured_stones_aux, remove_chain, merge_strings",B)],
  [("chains","groups with their liberties",B)],["Game::play","Game::goban","Game::turn"])

p("C03","Positional superko: no whole-board position is ever repeated",
  "When the superko rule is active, a play is refused if and only if it would recreate a whole-board position that stood on the board at any earlier moment of the same game (including the starting set-up and the current position) or another active rule forbids it. Passes, resumed games, capturing and non-capturing plays and permitted suicides are all treated alike.",
  ["histories","configurations"],
  "every history of plays, passes and resumptions from every starting position, with ko/suicide flags on or off",
  "One test covers one two-move superko shape; the property quantifies over all cycles of positions, of any length and from any set-up.",
  [G,B],[("check_super_ko, play_for_verification",G),("history.insert in play",G),("Goban equality and hash",B)],
  [("history","every earlier position",G)],["Game::legals","Game::check_point","Game::try_play","Game::check_super_ko"])

p("C04","Simple ko bars the immediate recapture and nothing else",
  "A move is treated as a ko violation exactly when the opponent's immediately preceding play captured one stone and the move would capture that capturing stone alone and so restore the previous position. Captures of two or more stones are never ko, and the ban is lifted by any intervening play elsewhere or pass.",
  ["histories","inputs"],
  "every ko-like shape at every place of the board (corner, edge, centre), colour and board size, and every continuation of a few moves around it, including snapbacks, double ko and send-two-return-one",
  "The tests contain four concrete ko shapes; the ban depends on size of the captured and capturing groups, on passes and on the moves in between.",
  [G,B],[("check_ko",G),("ko_point computation in remove_captured_stones_aux",B),("ko_point reset in play",G)],
  [("ko_point","single captured point, if any",G)],["Game::check_ko","Game::check_point","Game::legals","Game::try_play"])

p("C05","Groups, liberties and stone counts always match the board",
  "After any sequence of placing stones, removing groups and playing moves, the groups reported by the board are exactly its maximal connected sets of same-coloured stones, each listing every one of its stones once, with exactly its empty neighbouring points as liberties and correct stone and liberty counts. Every query about a point's neighbours, adjacent groups, connected stones or liberties agrees with the stones actually on the board.",
  ["histories","inputs"],
  "every order of placements, merges, captures and group removals, on every board shape and size",
  "The incremental linked-list and bit-set bookkeeping can go stale only after particular merge/removal orders; tests look at one hand-written list and a few liberty counts.",
  [B,GR,T,U],[("push_wth_feedback, merge_strings, add_stone_to_chain, remove_chain, create_chain",B),("liberty bit sets, CircularGroupIter",GR),("get_group_from_point",T)],
  [("next_stone","circular list of stones of a group",B),("liberties","bit set",GR)],["Goban::chains","Goban::chain_stones","Goban::get_connected_groups_idx","Goban::get_liberties","Goban::has_liberties","Goban::get_connected_stones","Goban::get_group_from_point","Goban::number_of_stones"])

p("C06","Equality and position hash depend on the stones alone",
  "Two boards are equal if and only if they have the same size and the same stone (or none) on every point, however each was built; equal boards always have equal hashes, and the position hash is determined by the stones on the board alone. Distinct positions that differ by a few stones have distinct position hashes.",
  ["histories","inputs"],
  "every pair of histories that end in the same or different positions, including histories with captures, suicides, merges and removals",
  "Tests compare two boards once and check that the table keys are distinct; path independence is a statement about pairs of histories.",
  [B,Z],[("zobrist_hash updates in push_wth_feedback and remove_chain",B),("PartialEq, Hash for Goban",B),("index_zobrist",Z)],
  [("zobrist_hash","incremental xor of stone keys",B)],["Goban::zobrist_hash","Goban == Goban","Hash for Goban"])

p("C07","Scores count territory, stones, prisoners and komi as the rule says",
  "In every position, an empty region counts as territory for a colour exactly when it touches stones of that colour and none of the other, and the score of each player is territory plus, if and only if the rule asks for it, their stones on the board, the prisoners they took, and komi for White. The outcome of a game ended by two passes is the winner by exactly the score difference, or a draw when the scores are equal.",
  ["inputs","histories","configurations"],
  "every reachable position, every combination of scoring flags and komi, both named rule sets, every board shape",
  "The tests compare five concrete scores; regions, neutral points and flag combinations are unbounded.",
  [T,G,R,B],[("get_territories, calculate_territories",T),("calculate_score_by, outcome",G),("number_of_stones",B)],
  [("prisoners","(taken by Black, taken by White)",G)],["Goban::get_territories","Goban::calculate_territories","Game::calculate_score","Game::calculate_score_by","Game::outcome"])

p("C08","Passes, pause, resumption and resignation drive the game's end",
  "A game is over exactly when two passes were made in a row since the last play or resumption, or an outcome was recorded by resignation or set-up; a recorded outcome is reported unchanged from then on, and an unfinished game has no outcome. While paused by two passes every checked move is refused as paused and changes nothing, resuming allows play again, and every pass or play hands the turn to the opponent.",
  ["histories","configurations"],
  "every sequence of plays, passes, resumptions and resignations",
  "Two tests pass twice; the property is about all interleavings of plays, passes, resumptions and resignations.",
  [G,R],[("play, try_play, resume, is_over, outcome",G),("EndGame::get_winner",R)],
  [("passes","consecutive passes",G),("outcome","recorded end",G)],["Game::is_over","Game::outcome","Game::turn","Game::try_play","Game::resume"])

p("C09","Refused moves and queries leave the game unchanged",
  "A refused move, and any query (legality, eye, ko, superko and suicide checks, scores, simulation, iteration), leaves every observable aspect of the game as it was, now and in every continuation; copies of a game evolve independently of the original.",
  ["histories","inputs"],
  "every refused move and every query in every reachable state, followed by every continuation up to the bound",
  "Tests never compare the state before and after a refusal, nor continue two copies of a game differently.",
  [G,B],[("try_play, check_point_by, play_for_verification",G),("Clone for Game/Goban",B)],
  [],["Game::try_play","Game::clone","all &self queries"])

p("C10","Every view of the board shows the same position",
  "All ways of reading a board (single points, row-major vector, matrix, stone lists, per-colour lists, lists of empty points, pseudo-legal moves, stone counts and printed form) describe exactly the same stones on exactly height x width points, on every board size. Rebuilding a square board from its vector yields an equal board.",
  ["inputs","configurations","histories"],
  "every board size from 1x1 to 19x19 and every reachable position on the small ones",
  "Tests read a 19x19 board through two of the views only.",
  [B,G,U],[("to_vec, matrix, get_stones, get_stones_by_color, get_coords_by_color, get_empty_idx, get_empty_coords, pretty_string, From<&[MaybeColor]>",B),("pseudo_legals, pseudo_legals_vec",G)],
  [],["Goban::to_vec","Goban::matrix","Goban::get_stones","Goban::get_coords_by_color","Goban::get_stones_by_color","Goban::get_empty_idx","Goban::get_empty_coords","Goban::pretty_string","Game::pseudo_legals","Game::pseudo_legals_vec"])

p("C11","Every board size up to 19x19 works, and nothing exists outside it",
  "On every board of height and width 1 to 19, square or not, each coordinate pair denotes its own point whose neighbours are the up to four orthogonally adjacent points inside the board. A board larger than 19 in a dimension is refused, and a move or stone outside the board is refused (by panic or error) without altering anything.",
  ["configurations","inputs"],
  "all 361 sizes, all points of each, all out-of-board coordinates, all requested sizes",
  "The tests use 9x9, 11x11 and 19x19 and never leave the board.",
  [U,B,G,R],[("two_to_1dim, one_to_2dim, valid_coords, is_coord_valid",U),("Goban::new, push",B),("play",G),("GobanSizes -> Size",R)],
  [],["Game::play","Game::try_play","Goban::new","Game::new","Goban::push","Goban::get_connected_points","Goban::get_color"])

p("C12","An SGF main line imports as the game it records",
  "Importing an SGF record yields the game obtained by setting up its root (size as columns:rows, set-up stones, handicap, komi, rule set, player to move, result) and playing the main line's moves in order, each by the colour recorded for it, wherever in its node the move stands. Text that is not a supported Go record gives an error, never a panic and never a different game.",
  ["inputs"],
  "every SGF text of a bounded grammar: root properties in any order, comments and unknown properties anywhere, passes, variations, rectangular boards, unsupported values",
  "Four concrete records are imported by the tests, all square, all with the move as first property of its node.",
  [S,BU],[("Game::from_sgf",S),("GameBuilder::build",BU)],
  [],["Game::from_sgf"])

p("C13","The game builder sets up exactly the requested game",
  "A game obtained from the builder equals, in every observable and every continuation, a game of the requested size, rule, komi, handicap and set-up stones, player to move (Black by default, White with handicap, the explicit choice winning over both) and recorded outcome, on which the requested moves were played in order. The order in which the options are given is irrelevant.",
  ["configurations","inputs"],
  "every combination of builder options over small domains, in every order of the calls",
  "Tests reach the builder only through four SGF files.",
  [BU,G],[("GameBuilder::build_inner",BU),("put_handicap",G)],
  [],["GameBuilder::build","Game::put_handicap"])

p("C14","Arbitrarily long games do not exhaust or degrade the board",
  "However many stones have been played, merged, captured and removed before, a board accepts further moves and behaves exactly like a freshly built board holding the same stones; neither the length of a game nor the number of groups ever created is limited.",
  ["histories"],
  "histories with far more group creations than a 16-bit index can hold, closed into cycles",
  "The longest test game has about 320 moves.",
  [GR,B],[("Groups::put_free_spot / remove",GR),("NonMaxU16 group index",B)],
  [("chains","slots, freed by capture or merge",GR)],["Goban::push","Goban::remove_chain","Game::play"])

p("C15","The rules are blind to orientation and colour",
  "Rotating, mirroring or transposing the board, or exchanging the colours, of a whole game rotates, mirrors, transposes or exchanges everything the library reports about it: positions, groups, legal moves, ko and superko refusals, eyes, captures, territory and scores (komi aside).",
  ["histories","inputs"],
  "every game of the bounded space under all eight symmetries and colour exchange",
  "A relation between pairs of games; no test compares two games.",
  [G,B,T,U],[("neighbour enumeration",U),("check_eye corner scan",G),("push_wth_feedback",B)],
  [],["all observables"])

p("C16","Eye filter: excludes only points ringed by own stones, never misses a full eye",
  "An empty point is reported as an eye of a colour only if all its orthogonal neighbours on the board hold stones of that colour, always if moreover all its diagonal neighbours on the board do, and never if two of its diagonal neighbours (in a corner: the only one) are held by the opponent. With the fill-eye rule active, the legal moves are exactly those legal without it minus the eyes of the player to move.",
  ["inputs","configurations","histories"],
  "every colouring of the 3x3 neighbourhood at every kind of place (corner, edge, centre), every reachable small-board position",
  "One test looks at five points of one recorded game.",
  [G,U],[("check_eye, helper_check_eye, check_point_by",G),("corner_points",U)],
  [],["Game::check_eye","Game::legals_by","Game::check_point_by"])

p("C17","Dead-stone detection terminates and reports living group handles",
  "The groups reported as floating are exactly the groups on the board that do not have two eyes, and dead-stone detection, whatever random choices its simulations make (games that end in a draw included), terminates without panicking on a game whose play-outs are finite, leaves the game unchanged and reports only handles of floating groups on the board. The moves a game offers to a tree search are its legal moves that fill no eye of the player, or a pass if there are none.",
  ["schedules","inputs"],
  "every outcome of the random choices of the simulations on small boards, every small position",
  "The only test calls it on a finished game, where no simulation takes place, and asserts nothing.",
  [D],[("get_floating_stones, dead_stones_wth_simulations, evaluate_leaf, Playout",D)],
  [],["Game::get_floating_stones","Game::dead_stones_wth_simulations","Game::dead_stones"])

p("C18","The recorded history lists the positions the game went through",
  "With the history feature, the recorded history contains exactly the distinct positions that stood on the board when a stone was played, in the order they first occurred, each unchanged by later moves.",
  ["histories"],
  "every sequence of plays, passes and captures",
  "No test reads the history.",
  [G],[("history.insert in play",G)],
  [("history","ordered set of boards",G)],["Game::history"])

p("C19","No panic, overflow or broken internal invariant under valid use",
  "No sequence of valid operations (legal or permitted plays, passes, resumptions, set-up placements, removals and queries with in-board arguments) panics, overflows, triggers an internal consistency assertion or fails to return, in builds with or without debug assertions, on any board size.",
  ["histories","inputs","configurations"],
  "every sequence of valid operations within the bounds, on all board sizes, in both build modes",
  "Internal assertions fire only on the histories that break them; some queries are called by no test.",
  [B,GR,G,T,U],[("debug assertions and integrity checks",B),("liberty add/remove assertions",GR)],
  [],["every public method"])

p("C20","Prisoner counts account for every stone",
  "At every moment, for each colour, the stones placed so far (set-up, handicap and plays) equal the stones of that colour on the board plus the prisoners of that colour taken by the opponent, with own stones lost by permitted suicide counted as the opponent's prisoners. Passing, resuming, resigning and refused moves never change the counts.",
  ["histories"],
  "every history, including multiple simultaneous captures, captures of hundreds of stones and suicides",
  "Tests compare final prisoner counts of four recorded games.",
  [G,B],[("prisoners update in remove_captured_stones",G),("remove_captured_stones_aux",B)],
  [("prisoners","(taken by Black, taken by White)",G)],["Game::prisoners","Goban::number_of_stones"])

p("C21","Simulating a move shows the board the move really produces",
  "For every move the active rules allow, the board returned by simulating the move equals the board after actually playing it, under every rule combination; capture prediction for a point is true exactly when playing there removes an opposing stone.",
  ["histories","configurations"],
  "every permitted move in every reachable state, suicide permitted or not",
  "No test compares the simulation with the real move.",
  [G,B],[("play_for_verification, will_capture",G),("remove_captured_stones_aux",B)],
  [],["Game::play_for_verification","Game::will_capture"])

p("C22","Every build plays the same game",
  "The optional features (history, dead-stone detection) and the build profile never change a game: for every sequence of operations, a library built with no optional feature, with some or with all of them, with or without debug assertions, gives the same positions, legal moves, refusals (superko included), captures, simulations, territories, scores and outcomes.",
  ["configurations","histories"],
  "every combination of optional features and build profile, every sequence of operations",
  "The tests run in one build only, with all features and debug assertions on.",
  [G,B,GR,R],[("cfg(feature) and cfg(debug_assertions) code",G),("debug assertions",B),("debug assertions",GR)],
  [],["every public method"])

p("C23","Named rules, preset sizes, results and conversions mean what they say",
  "The Chinese rules forbid suicide, ko and whole-board repetition, count stones and territory and give a komi of 7.5; the Japanese rules forbid suicide and ko, count prisoners and territory and give 6.5. A rule's name yields that rule and any other text an error; the presets are 9x9, 13x13 and 19x19; a result names its winner (a draw none); a colour's opposite is the other colour; and conversions between points, stones, coordinates, moves and board indices lose nothing.",
  ["inputs","configurations"],
  "every text, size, coordinate, colour and result within the bounds; every game under the named rules on small boards",
  "The tests use the named rules in a few games and never look at what they contain.",
  [R,"src/pieces/stones.rs",U,G],[("JAPANESE, CHINESE, Rule::from_str, GobanSizes, EndGame::get_winner",R),("Color, Point, Stone conversions","src/pieces/stones.rs"),("two_to_1dim, one_to_2dim, is_coord_valid",U)],
  [],["JAPANESE","CHINESE","Rule::from_str","Size::from(GobanSizes)","EndGame::get_winner","Stone::try_from","two_to_1dim","one_to_2dim"])

p("C24","A chain's liberty set is a set, and the table of chains loses nothing",
  "After any sequence of adding, removing and uniting liberties, a chain's liberties are exactly the board indices put in and not taken out, each listed once, and its liberty count, membership, atari and death verdicts agree with that set, for every index of a 19x19 board. The table of chains keeps every chain under its handle until that handle is removed, gives a new chain only a free handle, and lists exactly the chains it holds.",
  ["inputs","histories"],
  "every pair of indices in every way of adding them, every subset of a window of indices, every sequence of insertions and removals to the stated length",
  "The bit arithmetic depends on the index; no test calls these methods directly.",
  [GR],[("set, merge, any, count_ones, iter_ones, get",GR),("put_free_spot, remove, iter_with_index",GR)],
  [("liberties","bit set of 361 board indices",GR),("Groups","slots of chains",GR)],["Group::liberties","Group::number_of_liberties","Group::contains_liberty","Group::is_atari","Group::is_dead","Groups::iter_with_index"])

p("C25","Iterators yield the same items however they are consumed",
  "Every list handed out as an iterator (stones, points, empty points, chains, a chain's stones, neighbours, liberties, territories, legal and pseudo-legal moves, history) yields the same items whether consumed at once, in steps, by skipping or by counting, and at every moment the length it announces encloses the number of items still to come. The iterator over a chain's stones announces exactly what is left and stays finished once finished.",
  ["histories","inputs"],
  "every iterator in every reachable state, every point of its consumption",
  "Tests consume iterators in one way only, mostly by collecting them.",
  [B,GR,G,T],[("CircularGroupIter",GR),("get_stones, get_empty_coords, get_coords_by_color, chain_stones, ...",B),("get_territories",T),("legals_by, pseudo_legals, history",G)],
  [],["Iterator::next","Iterator::size_hint","ExactSizeIterator::len"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
