#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so the statements stay reviewable."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or [],
            "hook_needed": hook,
        },
    })

APP = "pkg/app/main.go"; CMD = "pkg/app/command.go"; W = "pkg/world/world.go"; IT = "pkg/world/item.go"
RL = "pkg/world/rel.go"; TR = "pkg/world/tree.go"; G = "pkg/grammar/grammar.peg"; GG = "pkg/grammar/grammar.peg.go"
GM = "pkg/grammar/main.go"; PE = "pkg/persistence/main.go"; ER = "pkg/errors/main.go"

prop("C01", "Saving a world as text and reading it back loses nothing",
 "For every world that commands or the world API can build from text the grammar can express, reading the world's text form back yields a world with the same version, id, name, expanded text, the same items with the same attributes, the same nesting and the same relationships with the same attributes. The text form of the re-read world describes that same content again.",
 ["inputs", "histories"],
 "all worlds reachable by any sequence of create/set/clear/delete/nest/free/rel operations, with ids and attribute values over the grammar's quoted-text alphabet (spaces, punctuation, '::', '$$', keywords, 'nil', numerals, empty values), any nesting depth and any world id/name/expanded text",
 "TestWorldSerde and TestEndToEndFileSaveLoad round-trip three hand-written worlds whose items have no attributes at all.",
 [W, TR, IT, RL, G, GG],
 [("world text writer", W+": String"), ("world text reader", W+": FromString"), ("tree/item/rel writers", "pkg/world/*.go: String"), ("grammar actions collecting items, rels and nesting", G+": WorldObject/Tree/ItemObject")],
 [{"name": "items, rels, tree", "meaning": "the content that must survive", "where": W}],
 ["world.World.String()", "world.FromString", "app Exec(\"world\")"])

prop("C02", "Containment is always a forest and moves land where told",
 "After every command, each existing item appears exactly once in the containment hierarchy, under exactly one parent or at the top level, with no cycles and nothing else in it. Nesting an item puts it (with everything below it) directly under the named parent, freeing puts it at the top level, nesting that would create a cycle is refused without effect, and all containment answers (parent, components, components-of listing, containment query, the world text) agree with one another.",
 ["histories", "inputs"],
 "all sequences of create/nest/free/delete commands and API calls over any set of items, including repeated moves, multi-item moves, self-nesting, nesting under a descendant and moving deep subtrees",
 "The tree tests build one two-child tree by hand and never move, delete or re-parent anything.",
 [TR, W, CMD],
 [("attach or move a node", TR+": AddOrMove"), ("remove a node and lift its components", TR+": Delete"), ("nest/free on the world", W+": Nest, Free"), ("nest/free commands", CMD+": ItemNestCommand, ItemFreeCommand")],
 [{"name": "parent pointers and component sets", "meaning": "two views of one hierarchy", "where": TR}],
 ["World.Parent/Components/ItemParent/ItemComponents/In", "app Exec(\"world\"), Exec(\"item in X\"), Exec(\"in? X Y\")"])

prop("C03", "Item commands change exactly what they name and report the result",
 "Creating, setting, clearing, create-or-fetch and create-or-set on an item change exactly the named attributes of exactly that item to exactly the given values and leave every other item, attribute, nesting and relationship as it was. Creating an item that already exists changes nothing. Each such command, and every later fetch or listing of the item anywhere, reports the item as it now is.",
 ["inputs", "histories"],
 "all item commands over any ids, any subset of attributes (type, name, mechanism, expanded, external; repeated, empty or maximal values) in any history",
 "No test executes an item command at all; the grammar tests only parse nineteen sample lines.",
 [CMD, W, IT],
 [("item commands", CMD+": Item*Command"), ("attribute update", W+": ItemCreate, ItemSet, itemSet"), ("type names", IT+": ItemTypeFromString, StringFromItemType"), ("parameter extraction", IT+": ItemParamsFromInput")],
 None, ["app Exec responses to item commands", "World.ItemFetch/ItemList/ItemComponents"])

prop("C04", "Relationship commands act on exactly the directed pair they name",
 "At most one relationship exists per ordered pair of items; creating, setting, clearing, create-or-fetch, create-or-set and deleting a relationship affect exactly the relationship from the first to the second item and exactly the named attributes, and nothing else. A pair, its reverse, and any other pair never get confused, whatever the ids look like. Each such command, and every later fetch, existence check or listing, reports the relationship as it now is, with its end items as they now are.",
 ["inputs", "histories"],
 "all relationship commands over any pairs (including self-pairs, reversed pairs, ids containing separators) and attribute subsets in any history",
 "TestRelSerde/TestRelFromString convert one relationship to and from text; no test executes a relationship command.",
 [CMD, W, RL],
 [("rel commands", CMD+": Rel*Command"), ("pair key", RL+": relIdFromIds"), ("attribute update", W+": RelCreate, RelSet, RelDelete")],
 [{"name": "relationship map", "meaning": "keyed by the ordered pair", "where": W}], ["app Exec responses to rel commands", "World.RelFetch(strict)/RelList"])

prop("C05", "Relationship queries return exactly the matching relationships",
 "A strict from/to/fetch query returns exactly the relationships whose named end is (or ends are) exactly the given item(s). Without the strict flag it returns exactly the relationships whose named end is the given item or any item nested anywhere below it (for fetch through commands: one of them, or an error when there is none). No relationship is repeated or omitted.",
 ["histories", "inputs"],
 "all worlds and all query items (existing or not), strict and non-strict, at any nesting depth",
 "No test runs a from?, to? or rel fetch query against a world.",
 [W, CMD, TR],
 [("queries", W+": RelFrom, RelTo, RelFetch"), ("descendants", TR+": GetDescendantIds"), ("query commands", CMD+": RelToQueryCommand, RelFromQueryCommand, RelFetchCommand")],
 None, ["app Exec(\"from? X\"), Exec(\"to? X\"), Exec(\"rel fetch X Y\")", "World.RelFrom/RelTo/RelFetch"])

prop("C06", "Deleting an item leaves nothing dangling and takes nothing else",
 "Deleting an item removes that item and exactly the relationships that start or end at it, and its components move, with everything below them, to where the deleted item was (its parent, or the top level). Afterwards nothing (no listing, query, nesting or relationship) mentions the deleted item, every relationship joins two existing items, and everything else is unchanged; an id deleted and created again starts with no attributes, components or relationships.",
 ["histories", "inputs"],
 "all deletions at any depth, with any number of components and incoming/outgoing/self relationships, followed by any further commands including re-creation of the same id",
 "No test deletes an item.",
 [W, TR, CMD],
 [("item deletion", W+": ItemDelete"), ("lifting components", TR+": Delete"), ("delete command", CMD+": ItemDeleteCommand")],
 None, ["app Exec(\"item delete X\") followed by queries", "World snapshot"])

prop("C07", "Undoing a command restores the world exactly",
 "For every world and every command that succeeds on it, undoing that command immediately afterwards restores exactly the previous world: items and attributes, nesting and relationships with their attributes. Undoing a whole sequence of commands in reverse order restores every intermediate world in turn.",
 ["histories", "inputs"],
 "all commands (queries, no-ops, multi-item moves, deletions of items with components and relationships) on all reachable worlds, in all sequences",
 "Undo is never called by any test.",
 [CMD, APP, W],
 [("per-command Undo", CMD+": Undo methods"), ("remembered previous values", CMD+": old* fields")],
 [{"name": "old params / parents", "meaning": "state captured at execution", "where": CMD}],
 ["app.InputToCommand, Command.Execute, Command.Undo", "App undo via hook"],
 "verif-tagged wrappers around the application's unexported undo and redo")

prop("C08", "Undo/redo history stays linear and consistent with the world",
 "At every moment the application's history is exactly the successfully executed commands that produced the present world, in order; undoing k commands and redoing j of them gives the world and history after the first n-k+j commands. Executing a new command after undoing discards the undone commands, and the can-undo and can-redo answers are true exactly when there is something to undo or redo, in which case that step succeeds and says how many commands can then be redone.",
 ["histories"],
 "all interleavings of command execution (succeeding and failing), undo and redo",
 "No test calls undo, redo, History, CanUndo or CanRedo.",
 [APP, CMD],
 [("history cursor", APP+": exec, undo, redo"), ("history view", APP+": History, CanUndo, CanRedo")],
 [{"name": "commands, commandsIdx", "meaning": "history and cursor", "where": APP}],
 ["App.History/CanUndo/CanRedo", "World snapshot after undo/redo via hook"],
 "verif-tagged wrappers around the application's unexported undo and redo")

prop("C09", "Replaying a history's text rebuilds the same world",
 "Executing the text of the commands in an application's history, in order, on a fresh world of the same name succeeds command by command and yields the same items, attributes, nesting and relationships. The outcome of a command sequence depends on nothing but the sequence.",
 ["histories", "inputs"],
 "all command sequences, including ones with failed commands, undone and redone commands",
 "No test looks at a history or compares two runs.",
 [APP, CMD, W],
 [("command text", CMD+": CommandBase.String"), ("history", APP+": History, exec")],
 None, ["App.History()[i].String()", "World snapshots of original and replay"])

prop("C10", "A command that reports an error changes nothing",
 "Whenever executing a command line returns an error response, the world (items, attributes, nesting, relationships) is exactly what it was before, even if the command names several items of which only some are invalid. The failed line adds nothing to the history.",
 ["inputs", "histories"],
 "all command lines that fail on any reachable world: unknown ids, partly unknown id lists, missing relationship ends, impossible nestings, empty ids, malformed text",
 "No test executes a failing command.",
 [CMD, APP, W],
 [("multi-item commands", CMD+": ItemNestCommand, ItemFreeCommand"), ("command execution", APP+": Exec, exec"), ("validation before update", W+": ItemCreate, RelCreate, Nest")],
 None, ["World snapshot before/after each error response", "App.History"])

prop("C11", "Queries never change the world",
 "Fetching, listing, existence, containment, from/to and world commands never change any item, attribute, nesting or relationship, nor the outcome of any later command. Asking the same question again gives the same answer (listings: the same set).",
 ["histories", "inputs"],
 "all query commands and read-only API calls, in any number and order, at any point of any history",
 "The only command executed by a test is one 'world' on an empty world, whose effect is not checked.",
 [CMD, W, TR],
 [("query commands", CMD+": *FetchCommand, *ListCommand, *ExistsCommand, *QueryCommand"), ("read-only operations", W+": ItemFetch, ItemList, Rel*, In, Parent, Components")],
 None, ["World snapshots around queries", "twin run with queries removed"])

prop("C12", "Every input line gets exactly one well-formed response",
 "For any input text whatsoever (up to tens of kilobytes, including malformed, binary and adversarial text), executing it returns without crashing or hanging, and the returned text is itself valid in the grammar: either an object followed by a 200 ok status, for a valid command that succeeded, or an error status with a 400-range code and a readable message, otherwise.",
 ["inputs", "histories"],
 "all byte strings, near-miss mutations of valid commands, grammar-derived text of every statement kind, on all reachable worlds",
 "The tests feed about thirty valid lines and no invalid one.",
 [APP, GM, GG, ER],
 [("response assembly and self-check", APP+": Exec, okString"), ("error text", ER+": String"), ("generated parser", GG)],
 None, ["App.Exec return value", "grammar.Parse of the response"])

prop("C13", "A command line is understood exactly as written",
 "Parsing a well-formed command yields exactly the resource kind, verb, ids, attribute values, clear-keys, limit and flags that were written, however they are quoted or spaced. An unquoted word and the same word in quotes mean the same id or value, ids containing spaces or reserved words work when quoted everywhere an id is accepted, and an unquoted id is never split or mistaken for a keyword merely because it begins with one.",
 ["inputs"],
 "all sentences of the command grammar: every verb and alias, any ids and values over the text alphabet, any amount and kind of whitespace, any flag combination",
 "The grammar tests sample nineteen lines with one quoted id and no identifier that begins with a keyword or list of quoted ids.",
 [G, GG, GM],
 [("command rules and actions", G), ("generated parser", GG), ("quote stripping", GM+": cleanString")],
 None, ["grammar.Parse(...).InputAttributes", "app.InputToCommand"])

prop("C14", "Items, relationships and trees survive their own text form",
 "For every item, relationship and tree with grammar-expressible text, parsing its printed form yields an equal value, and the printed form of that value has the same content. This includes subtrees with an item at their root and the collection of items found in a tree's text.",
 ["inputs"],
 "all items (every type, every attribute subset), relationships and trees (any shape, any depth, including an item with id 'nil')",
 "TestItemSerde, TestRelSerde and TestTreeSerde use four fixed values without types and compare string lengths for trees.",
 [IT, RL, TR, G, GG],
 [("writers", "pkg/world: Item.String, Rel.String, tree.String"), ("readers", "pkg/world: ItemFromString, RelFromString, TreeFromString")],
 None, ["world.ItemFromString(item.String())", "world.RelFromString", "world.TreeFromString"])

prop("C15", "Saved worlds are found by name, complete and separate",
 "After saving any set of worlds, in any order and with overwrites, listing names exactly the saved worlds and loading each name returns a world equal to the last one saved under that name. Saving touches nothing outside the configured directory and no other world's file; a world that could not be stored safely under its name, or not be loaded again, is refused with an error, and loading a name never saved is an error.",
 ["histories", "inputs"],
 "all sequences of save, overwrite, load, list and directory switches over worlds with any content and any name (including names with spaces, dots, a '.world' suffix, and path separators)",
 "TestEndToEndFileSaveLoad saves and loads one world once.",
 [PE, W],
 [("file naming", PE+": Save, Load"), ("listing", PE+": ListWorlds"), ("directory", PE+": SetSourcePath")],
 None, ["Persistence.Save/Load/ListWorlds/SetSourcePath", "file system contents around the directory"])

prop("C16", "An interrupted or failed save never destroys the saved world",
 "If a save fails or the process dies at any point during it, the world previously saved under that name can still be loaded in full, or the new one can; never a partial, empty or unreadable one. A save that reports success has stored the complete new world, and a save that could not store it reports an error. Afterwards saving works again, and listing names no world that was never saved.",
 ["crash_points", "fault_sequences"],
 "a kill at every system call made during a save, and write failures (file-size limit) at every length, over worlds of different sizes, growing and shrinking",
 "No test interrupts or fails a save.",
 [PE],
 [("file write", PE+": Save")],
 None, ["directory contents and Load after a killed or failed Save"])

prop("C17", "Text that is not a complete world is never loaded as one",
 "Reading a world from text that is a strict prefix of a world's text, or that is not a world description at all (a command, a response without a world, a status, a bare tree, binary data), or whose relationships name items it does not contain, is an error. It never yields a partial or empty world and never crashes.",
 ["inputs", "crash_points"],
 "all strict prefixes of all worlds' text, all other statement kinds of the grammar, and byte-level corruptions of either",
 "No test loads malformed text.",
 [W, G, GG, PE],
 [("world reader", W+": FromString"), ("statement kinds", G+": Valid")],
 None, ["world.FromString", "Persistence.Load"])

prop("C18", "Worlds are independent of one another and of values they return",
 "Operations on one world or application never change what another one contains or answers, even when they run at the same time in different goroutines, where they are free of data races and behave as they would alone. Values handed out (items, relationships, listings) are snapshots: modifying them changes nothing in the world, and later commands do not change them.",
 ["schedules", "histories"],
 "all interleavings of operations, loads, saves and parses on distinct worlds from any number of goroutines; all modifications of returned values",
 "Every test uses one world in one goroutine and never modifies a returned value.",
 [W, TR, APP, GM, GG, PE],
 [("per-world state", W+": world"), ("shared empty tree", TR+": emptyTree"), ("per-parse state", GM+": Parse")],
 None, ["race detector", "per-world snapshots versus a solo run", "mutation of returned values"])

prop("C19", "Equality of worlds, trees, items and relationships is exact",
 "Two worlds compare equal exactly when they have the same version, id, name, expanded text, items with attributes, nesting and relationships with attributes, regardless of the order in which they were built; likewise for trees, items and relationships. Comparison is reflexive and symmetric and changes neither side.",
 ["inputs", "histories"],
 "all pairs of worlds, trees, items and relationships: the same content built in different orders, and contents that differ in exactly one place",
 "WorldEqual is only ever called on pairs expected to be equal with at most one relationship per source item; TreeEqual is never called.",
 [W, TR, IT, RL],
 [("comparison", W+": WorldEqual; "+TR+": TreeEqual; "+IT+": ItemEqual; "+RL+": RelEqual")],
 None, ["WorldEqual/TreeEqual/ItemEqual/RelEqual on generated pairs"])

prop("C20", "Error values keep what they were given and are never altered",
 "An error value carries exactly the code, description, message, data and wrapped errors given to it, in order, and deriving a new error from it never changes it or any other error derived from it. Its text form is valid in the grammar and yields the same code and 'description: message' text, for messages the grammar can express; unwrapping reaches the first wrapped error.",
 ["histories", "inputs", "schedules"],
 "all derivation graphs built with the error constructors and modifiers, any branching, any number of data pairs and wrapped errors, and concurrent derivations from one shared base",
 "TestStandaloneErrors formats one error and checks only the statement kind.",
 [ER, "pkg/errors/codes.go", G, GG],
 [("modifiers", ER+": UseCode, WithData, WithError, WithDescription, ClearData"), ("text", ER+": String")],
 None, ["fields and text of every error in a derivation graph", "grammar.Parse of the text", "race detector"])

prop("C21", "World operations report their own outcome and nothing stale",
 "After every modifying world operation, the reported error is nil exactly when the operation did what it says, and the reported item or relationship is the affected one as it now is (empty when the operation did not concern one). Nothing reported comes from an earlier operation, and an operation that reports an error has changed nothing.",
 ["histories", "inputs"],
 "all sequences of world API calls, succeeding and failing, including creations of existing items or relationships with equal or conflicting attributes, invalid item types and missing ids",
 "Tests ignore the results of the world operations they call.",
 [W],
 [("outcome tracking", W+": latestItem, latestRel, latestErr, resetLatestTrackers"), ("operations", W+": Item*, Rel*, Nest, Free")],
 None, ["World.Err, WorldWithItem.Item, WorldWithRel.Rel after each call"])

prop("C22", "Listings are complete, duplicate-free and honour their limit",
 "Listing items or relationships without a limit (or with limit 0) returns each current one exactly once; with limit n it returns exactly min(n, count) distinct current ones. Listing the items in an item returns exactly its direct components, and is an error for an unknown item.",
 ["inputs", "histories"],
 "all worlds, all limits from 0 to beyond the count, all items; through commands and through the API",
 "No test lists anything through a command; the API listing is only used inside equality checks.",
 [CMD, W, G],
 [("listing", W+": ItemList, RelList, ItemComponents, Components"), ("limit", CMD+": limitFromInput"), ("list commands", CMD+": ItemListCommand, RelListCommand, ItemComponentsListCommand")],
 None, ["app Exec(\"item list n\"), Exec(\"rel list n\"), Exec(\"item in X\")", "World.ItemList/RelList"])

prop("C23", "The browser bridge relays every response faithfully",
 "For any command text sent through the browser bridge, the reply is one well-formed JSON document whose raw text is a response the application core gives to that same command in that same state, whose status equals the code in that raw text, and whose error part is empty exactly when the status is 200 and otherwise carries that code and message. The data part has that code and message too and, when the answer is a single item or relationship, its text. The bridge survives any input and any number of calls, keeping one world throughout.",
 ["inputs", "histories"],
 "all command texts (valid, failing, malformed, non-ASCII) in any sequence",
 "cmd/wasm has no tests.",
 ["cmd/wasm/main.go", APP, GM],
 [("reply assembly", "cmd/wasm/main.go: toReply, jsReplyToJsValue"), ("exported function", "cmd/wasm/main.go: main")],
 None, ["topolithSend in the compiled WebAssembly module, run under Node"])

prop("C24", "The console executes each line once and prints its response",
 "Each non-empty line entered at the interactive console that is valid grammar is executed exactly once against the session's one world, and the response printed is the one the application core gives in that state. A line that is not valid grammar is reported as invalid and changes nothing, an empty line does nothing, and no input line ends the session.",
 ["inputs", "histories"],
 "all sequences of console lines, valid and invalid",
 "cmd/cli has no tests.",
 ["cmd/cli/main.go", APP],
 [("line handling", "cmd/cli/main.go: executor"), ("session set-up", "cmd/cli/main.go: main")],
 None, ["terminal output of the compiled console under a pseudo-terminal"])

prop("C25", "A tree's answers agree with one another through any edits",
 "For every sequence of adding, moving and deleting items at any parts of a tree (made empty or read from text), each item that was added and not deleted is in it exactly once, and what the root and every part say about their item, parent, root, components and emptiness, and about which ids they contain (strictly or not), where these are found and what is below them, agrees with one another and with what the operations promise: adding puts the item directly under the named part, moving takes everything below it along, deleting an item hands its components to its parent, a move that would create a cycle is refused without effect. A part that was found stays the part of its item until that is deleted. A tree without a parent always reports an empty one. A text in which an item appears twice is not read as a tree.",
 ["inputs", "histories"],
 "all sequences of additions, moves and deletions at all parts of a tree, and all questions to all parts",
 "Tests ask one or two questions of one fixed three-level tree.",
 ["pkg/world/tree.go"],
 [("tree operations", "pkg/world/tree.go: AddOrMove, Delete"), ("tree questions", "pkg/world/tree.go: Has, Find, GetDescendantIds, Components, Parent, Root, Empty")],
 None, ["world.Tree methods", "world.TreeFromString"])

prop("C26", "A command succeeds exactly when it can be done, and says why when not",
 "Every well-formed command succeeds exactly when it can be done in the present world: creating an item with a non-empty id, existence and containment questions, from/to queries, listings, deletions and 'world' always can; fetching, setting and clearing an item or relationship, 'item in', nesting and freeing need what they name; a new relationship needs both its end items; nesting must not put an item under its own descendant. The status says which: 200 when done, 400 for text that is no command, 450 for a command that could not be done, whose causes are 404 when something it needs is not there and 409 when it would make a cycle, and never the other of the two. Likewise the error of a World operation that failed has the code for not-found and names an id that is missing, or the code for conflict when it would make a cycle or creates what exists with other parameters.",
 ["inputs", "histories"],
 "all commands in all reachable worlds, above all those that cannot be done",
 "Tests look at success for the most part, and at no status or cause of a failure.",
 [APP, "pkg/app/command.go", W],
 [("statuses", "pkg/app/main.go: exec"), ("what commands need", "pkg/app/command.go: Execute of each command"), ("causes", "pkg/world/world.go: ItemSet, RelCreate, RelSet, Nest, Free; pkg/world/tree.go: AddOrMove")],
 None, ["App.Exec", "World operations and World.Err"])

prop("C27", "Only the text of an item, relationship or tree is ever read as one",
 "For every text, the readers of items, relationships, trees and worlds either give a value or an error and never crash. The text of one item or relationship, as printed, as written by hand in the grammar, or as answered by a fetch, is read as exactly that one, a relationship with the end items the given world has for it. A text that is no such thing gives an error: a command that creates nothing (one that fetches, sets, clears, deletes, asks or lists), the text of another kind, a list of several, an answer without a thing, an error, an incomplete text, an unknown item type, a relationship one of whose ends the world does not have; text without a tree (other than no text at all) is not read as a tree. Reading changes no world.",
 ["inputs"],
 "all texts, given to each of the readers, with any world",
 "Tests read texts that the printers made, of the kind the reader is for.",
 ["pkg/world/item.go", "pkg/world/rel.go", "pkg/world/tree.go", W],
 [("readers", "pkg/world/item.go: ItemFromString; rel.go: RelFromString; tree.go: TreeFromString; world.go: FromString")],
 None, ["world.ItemFromString, RelFromString, TreeFromString, FromString"])

prop("C28", "Applications stay right when others change their World",
 "Several applications may be at work on one World, and the World's own operations may change it in between. A command answers from, and does its effect on, the World as it is at that moment, whoever made it so, and a redo does exactly what its command does on the World as it is. An undo leaves alone everything its command was not about, such as what others did elsewhere in the meantime. If what the command was about is still as the command left it, and what was there before can be there again, the undo succeeds and brings just that back. Otherwise it takes back what it can or fails; so does a redo of what cannot be done any more, without effect on the World. An undo or redo that fails leaves that application with an empty history; one that succeeds moves its place in the history by one step. An application's history, and what it can undo and redo, are about its own commands only. Through all this the World's views stay consistent.",
 ["histories"],
 "all schedules of commands, undos and redos by applications on one World, and of changes to it by its own operations",
 "Tests have one application per World, and nothing changes the World but its commands.",
 [APP, "pkg/app/command.go", W],
 [("taking back", "pkg/app/command.go: Undo of each command"), ("history", "pkg/app/main.go: exec, undo, redo")],
 None, ["App.Exec, History, CanUndo, CanRedo", "undo and redo through the hook", "World operations"],
 hook="verif-tagged wrappers around the application's unexported undo and redo")

prop("C29", "Reading an answer finds exactly what it says",
 "Parsing a well-formed answer of the core (nothing, items, relationships, ids, a tree or a world, then a status), or a tree, world or status on its own, however it is quoted and spaced, finds exactly what it says and nothing else: which of these kinds of text it is; the code and message of the status; the kind of object, and its text when it is a single item or relationship, a list of ids (as a JSON list), a tree or a world; the texts of all items and of all relationships, each in the order written; all ids; the nesting of a tree, with the order of what is in each; and a world's version, id, name and expanded text. Reading the same text again, also while others are read, finds the same. A text that lacks a part of an answer, leaves one open or has something foreign before or behind it is not taken for an answer.",
 ["inputs"],
 "all answers, trees, worlds and statuses of the grammar, and damaged answers",
 "The grammar tests have five answers and one tree.",
 ["pkg/grammar/grammar.peg", "pkg/grammar/grammar.peg.go", "pkg/grammar/main.go"],
 [("rules and actions for answers", "pkg/grammar/grammar.peg: Response, WorldObject, ItemObject, RelObject, IdentifierListObject, Tree, StatusObject, WorldParams"), ("splitting a list of ids", "pkg/grammar/main.go: splitIdentifiers")],
 None, ["grammar.Parse: StmtType, Response, ItemStrings, RelStrings, ResourceIds, Tree, TreeString, WorldParams"])

prop("C30", "The web terminal sends each line once and shows its reply",
 "In the web page's terminal, whatever is typed, key by key or pasted, also several lines in one piece: each line entered is handed to the core exactly once, in order and as it stands, and nothing else is. Backspace takes back the last character of the line being typed, and nothing when there is none. The line being typed stands behind the prompt. Below each line entered its whole reply is shown (as JSON that says the same as the core's reply), then one new prompt, before anything typed after it. The page has one core, which keeps one world from the page's start. While the core is not there yet or cannot be loaded, and when it throws or answers with what is no JSON, an error text is shown in place of the reply, and the terminal goes on with the next line.",
 ["inputs", "histories", "schedules"],
 "all sequences of keys and pasted texts, with the core loaded sooner, later or never, and failing at any call",
 "The web page has no tests.",
 ["web/src/TopolithTerminal.tsx", "web/src/wasm.ts", "web/src/App.tsx", "web/src/main.tsx"],
 [("line editing and output", "web/src/TopolithTerminal.tsx"), ("asking the core", "web/src/wasm.ts: wasmSend"), ("loading the core", "web/src/wasm.ts: initializeWasm")],
 None, ["topolithSend", "what is written to the xterm Terminal"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
