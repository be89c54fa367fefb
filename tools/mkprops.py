#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the properties are worded)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None)))
W="pkg/world/world.go"; T="pkg/world/tree.go"; I="pkg/world/item.go"; R="pkg/world/rel.go"
C="pkg/app/command.go"; A="pkg/app/main.go"; G="pkg/grammar/grammar.peg.go"; GM="pkg/grammar/main.go"
P_="pkg/persistence/main.go"; ER="pkg/errors/main.go"

prop("W01","Containment is always a forest over exactly the existing items",
 "After any sequence of item creations, deletions, updates, nestings and frees, every existing item occupies exactly one place in the containment hierarchy: top level, or directly inside exactly one other existing item. No deleted item appears anywhere, no item is inside itself directly or indirectly, and the parent query and the components query always agree with each other.",
 ["histories","inputs"],"every history of mutating world operations with any ids",
 "Quantifies over all histories; the tests only look at a hand-built two-leaf tree and never call nest twice, free, or delete on a nested item.",
 [T,W],[("moving and re-parenting tree nodes","pkg/world/tree.go AddOrMove, Delete"),("keeping item map and tree in step","pkg/world/world.go ItemCreate, ItemDelete, Nest, Free")],
 [dict(name="Tree",meaning="containment hierarchy",where=T),dict(name="Items",meaning="items by id",where=W)],["World.Parent","World.Components","World.ItemList","World.In"])
prop("W02","Nest and free move exactly one item with all it contains",
 "Nesting an existing item under another existing item makes that item its parent and carries along everything the moved item contains; freeing it makes it top level; no other item's place changes. Nesting an item inside one of its own descendants, or naming an item that does not exist, reports an error and changes nothing; nesting an item inside itself changes nothing.",
 ["histories","inputs"],"every reachable world and every pair of ids",
 "The property is about every hierarchy shape and every pair of positions in it; tests nest only top-level leaves.",
 [T,W],[("AddOrMove","pkg/world/tree.go"),("Nest, Free","pkg/world/world.go")],None,["World.Nest","World.Free","World.Parent","World.Components","World.Err"])
prop("W03","Deleting an item removes it, its relationships, and lifts its components",
 "Deleting an item removes that item and every relationship that starts or ends at it, and each item directly inside it moves to the deleted item's former parent (or top level). All other items, attributes, placements and relationships are unchanged, and deleting an id that does not exist changes nothing.",
 ["histories","inputs"],"every reachable world and every id",
 "No test deletes anything from a world; the claim is over all hierarchies and relationship sets.",
 [W,T],[("ItemDelete","pkg/world/world.go"),("Delete transfers components","pkg/world/tree.go")],None,["World.ItemDelete","World.ItemFetch","World.RelList","World.Parent"])
prop("W04","Items behave as a keyed store with exact attribute updates",
 "Creating an item under a new non-empty id stores and returns it with exactly the given attributes; creating under an existing id leaves the stored item unchanged and reports a conflict when the given attributes differ. Setting attributes changes exactly the named ones (an unknown type name or a missing item is reported as an error), and no operation on one id alters the item stored under another.",
 ["histories","inputs"],"every id, attribute value and history of item operations",
 "Ids and attribute values range over all strings and all subsets of attributes; tests create items with no attributes only.",
 [W,I],[("ItemCreate, ItemSet, itemSet, equalItemParams","pkg/world/world.go"),("type names","pkg/world/item.go")],[dict(name="Items",meaning="items by id",where=W)],["World.ItemCreate","World.ItemSet","World.ItemFetch","World.Item","World.Err"])
prop("W05","Relationships are keyed by the ordered pair of item ids",
 "There is at most one relationship per ordered pair of items, and relationships of different ordered pairs never overwrite, hide or delete one another whatever characters the ids contain. A relationship can only be created when both items exist; creating one that exists leaves it unchanged and reports a conflict when attributes differ; setting changes exactly the named attributes; deleting removes only that pair.",
 ["histories","inputs"],"every quadruple of ids and every attribute subset",
 "A key collision needs ids with particular characters at particular places, which no sampled test contains.",
 [W,R],[("relationship key","pkg/world/rel.go relIdFromIds"),("RelCreate, RelSet, RelDelete","pkg/world/world.go")],[dict(name="Rels",meaning="relationships by key",where=W)],["World.RelCreate","World.RelSet","World.RelDelete","World.RelFetch","World.RelList"])
prop("W06","Relationship endpoints always show the current items",
 "Every relationship returned by any query starts and ends at items that exist, and carries exactly the attributes currently stored for those items. This stays true after any later update of either item.",
 ["histories"],"every history of item and relationship operations",
 "Staleness needs an update after a relationship was made; no test updates an item.",
 [W,R],[("ItemSet, RelCreate, ItemDelete","pkg/world/world.go")],None,["World.RelFetch","World.RelList","World.RelTo","World.RelFrom","World.ItemFetch"])
prop("W07","Relationship queries honour containment and strictness",
 "Asking for relationships between two items, to an item, or from an item returns exactly the stored relationships whose endpoints match: in strict mode the named items themselves, otherwise the named items or anything nested anywhere inside them. Each matching relationship is returned exactly once, regardless of internal iteration order.",
 ["inputs","histories","schedules"],"every hierarchy, relationship set, pair of ids, strictness and map iteration order",
 "No test queries relationships over a nested hierarchy; correctness is over all hierarchies and relation sets.",
 [W,T],[("RelFetch, RelTo, RelFrom","pkg/world/world.go"),("GetDescendantIds","pkg/world/tree.go")],None,["World.RelFetch","World.RelTo","World.RelFrom"])
prop("W08","Containment queries agree with the hierarchy",
 "The in-query on two different items is true exactly when the first is nested anywhere inside the second (in strict mode never for different items), and false when either does not exist. Parent and component queries (by id and by item) return exactly the direct parent and direct components with their current attributes, and say not-found exactly for items that do not exist.",
 ["inputs","histories"],"every hierarchy and pair of ids",
 "Tests check one fixed two-leaf tree; the claim is over all hierarchies.",
 [W,T],[("In, Parent, Components, ItemParent, ItemComponents","pkg/world/world.go"),("Find, Has","pkg/world/tree.go")],None,["World.In","World.Parent","World.Components","World.ItemParent","World.ItemComponents"])
prop("W09","Lists return distinct stored elements up to the limit",
 "Listing items or relationships returns only stored elements, none twice, exactly min(limit, total) of them for a positive limit, and all of them for limit zero.",
 ["inputs","schedules"],"every world content, limit and map iteration order",
 "Limits and iteration orders are unbounded; no test lists with a limit.",
 [W],[("ItemList, RelList","pkg/world/world.go")],None,["World.ItemList","World.RelList"])
prop("W10","Values handed out by a world are snapshots",
 "Items, relationships, ids and lists returned by a world keep their contents whatever is done with the world afterwards, and changing them, or the attributes passed in when creating or setting, after the call never changes the world or a later answer.",
 ["histories","inputs"],"every world, every query and every later operation or edit",
 "Shared backing storage shows only after a particular later update; no test looks at a result twice.",
 [W],[("ItemList, RelList, RelFetch, RelTo, RelFrom, Components","pkg/world/world.go"),("itemSet, relSet","pkg/world/world.go")],None,["World.ItemList","World.RelList","World.Components","World.ItemCreate","World.RelCreate"])
prop("W11","Separately made worlds and trees share nothing",
 "Operations on one world or tree, whether newly created or read from text (including the same text, and the empty text), never change another one, nor one made afterwards.",
 ["histories","inputs"],"every pair of worlds or trees and every operation on one of them",
 "Sharing needs two objects alive at once; tests look at one at a time.",
 [W,T],[("CreateWorld, FromString","pkg/world/world.go"),("TreeFromString, emptyTree","pkg/world/tree.go")],None,["CreateWorld","FromString","TreeFromString"])
prop("T01","Tree operations keep one hierarchy and tree queries agree with it",
 "On a tree read from text, with or without an item at its root: adding an item to any part of it puts the item directly there (moving it with all it contains when it is in the tree already), except that moving an item into its own components reports an error and changes nothing; deleting an item other than the root's from a part that holds it removes it and lifts its components to its parent. Has, find, descendants, components, parent, root and empty always describe that same hierarchy.",
 ["histories","inputs"],"every tree shape, part of the tree and id",
 "Tests use one two-leaf tree; the claim is over all hierarchies, parts and sequences.",
 [T],[("AddOrMove, Delete, Has, Find, GetDescendantIds, Parent, Root, Empty","pkg/world/tree.go")],[dict(name="components, parent",meaning="the hierarchy in both directions",where=T)],["Tree.AddOrMove","Tree.Delete","Tree.Find","Tree.Has","Tree.GetDescendantIds"])
prop("E01","Equality of items, relationships, trees and worlds is exact",
 "Comparing an item, relationship, tree or world with an identical copy always yields equal, whatever internal iteration order is used, and the comparison is symmetric. Two values that differ in any attribute, item, placement or relationship are never reported equal.",
 ["inputs","schedules"],"all pairs of values and all map iteration orders",
 "Iteration order is random at run time, so a test passes or fails by luck; differing pairs are never tested.",
 [W,T,I,R],[("WorldEqual","pkg/world/world.go"),("TreeEqual","pkg/world/tree.go"),("ItemEqual","pkg/world/item.go"),("RelEqual","pkg/world/rel.go")],None,["WorldEqual","TreeEqual","ItemEqual","RelEqual"])
prop("S01","Item text round-trips",
 "Every item whose id is non-empty and whose texts use only the characters allowed inside quotes is parsed back from its textual form as an equal item, including its type and external mark. Item type names and item types map to each other one to one.",
 ["inputs"],"all items over the quotable character set",
 "Tests round-trip two items without a type; the claim is over all attribute combinations and texts.",
 [I,W,G],[("Item.String, ItemFromString, type name tables","pkg/world/item.go"),("parser","pkg/grammar/grammar.peg.go")],None,["Item.String","ItemFromString"])
prop("S02","Relationship text round-trips",
 "Every relationship between two existing items, whose texts use only the characters allowed inside quotes, is parsed back from its textual form as an equal relationship. Text naming a missing item, or text that is not a relationship, yields an error.",
 ["inputs"],"all relationships over the quotable character set",
 "One sample relationship is tested.",
 [R,G],[("Rel.String, RelFromString","pkg/world/rel.go")],None,["Rel.String","RelFromString"])
prop("S03","Tree text round-trips",
 "Every containment tree of items over the quotable character set is parsed back from its textual form with the same items, attributes and nesting at every level. The items reported alongside the parsed tree are exactly the items it contains.",
 ["inputs","schedules"],"all tree shapes and quotable texts, all iteration orders",
 "The test compares one flat two-leaf tree and only string lengths.",
 [T,GM,G],[("tree String, TreeFromString, convertNodeToTree","pkg/world/tree.go"),("tree building actions","pkg/grammar/grammar.peg.go")],None,["Tree.String","TreeFromString"])
prop("S04","World text round-trips without loss",
 "Every world over the quotable character set (version at least 1) is read back from its textual form as a world with the same version, id, name, description, items with all attributes, nesting and relationships. Text that is not a complete world description is rejected with an error instead of yielding a partial or empty world.",
 ["inputs","histories"],"all worlds and all quotable texts, including empty ones and the word nil as an id",
 "The tests round-trip two literal worlds with no item attributes, and compare with a comparison that itself ignores parts.",
 [W,T,G],[("String, FromString","pkg/world/world.go"),("world rules","pkg/grammar/grammar.peg.go")],None,["World.String","FromString"])
prop("G01","Parsing is total",
 "For every input text, parsing terminates without crashing and either reports an error or yields exactly one classified statement. The same holds for the functions that turn text into items, relationships, trees and worlds.",
 ["inputs"],"every text",
 "All texts are quantified over; tests parse about forty well-formed lines and no malformed one.",
 [G,GM,I,R,T,W],[("Init, Parse, Execute","pkg/grammar/grammar.peg.go"),("Parse","pkg/grammar/main.go")],None,["grammar.Parse","ItemFromString","RelFromString","TreeFromString","FromString"])
prop("G02","Commands parse to exactly what was written",
 "For every verb of the command language and any identifiers, attribute values, attribute subsets, limits and flags written in it (quoted, or as plain words that do not start with a reserved word), the parsed command has exactly that verb, resource, identifiers, attributes and flags. Leading blanks, and blanks between words, do not change the meaning.",
 ["inputs"],"all verbs, flags, attribute subsets and quotable texts",
 "Tests use one fixed identifier and one attribute per verb; quoted lists and most attribute combinations are never parsed.",
 [G,GM],[("command rules and actions","pkg/grammar/grammar.peg.go"),("cleanString","pkg/grammar/main.go")],None,["grammar.Parse"])
prop("G03","Nothing outside the command language is accepted as a command",
 "A text is classified as a command only if all of it is a well-formed command; a command followed by further text, or with a character outside the allowed set in an identifier or value, is rejected.",
 ["inputs"],"every text up to the stated length",
 "Rejection is a statement about all malformed texts; no test feeds one.",
 [G],[("Command and END rules, character classes","pkg/grammar/grammar.peg.go")],None,["grammar.Parse"])
prop("G04","Responses and status lines parse to their parts",
 "Any well-formed response parses with exactly its status code, its status message, the kind of object it carries, and the object's own text. Object lists are recovered completely and in order.",
 ["inputs"],"all objects, codes and messages over the allowed characters",
 "Five literal responses are tested.",
 [G,GM],[("Response, StatusObject and object rules","pkg/grammar/grammar.peg.go")],None,["grammar.Parse"])
prop("G05","Parse results are independent of each other",
 "What was parsed from one text stays as it was whatever is parsed afterwards and whatever is done with other results, contains nothing of other texts, and parsing the same text again gives the same result.",
 ["histories","inputs"],"every command and every other text before or after it",
 "Leaks between parses need a particular pair of texts; tests parse one text and look at it at once.",
 [GM,G],[("Parse","pkg/grammar/main.go"),("parser state","pkg/grammar/grammar.peg.go")],None,["grammar.Parse"])
prop("A01","Every input line gets a well-formed response",
 "Executing any text, in any reachable state, returns without crashing a text that itself parses as a response or status. Text that is not a command yields an error status with an invalid-input code, and leaves the world and the history unchanged.",
 ["inputs","histories"],"every text and every history",
 "One input (world) is executed by the tests.",
 [A,C,ER],[("Exec, okString","pkg/app/main.go"),("error text","pkg/errors/main.go")],None,["App.Exec","App.History"])
prop("A02","Undoing a command restores the world exactly",
 "For every command and every world, undoing the command right after executing it restores items, attributes, placements and relationships to exactly what they were before. This holds whether the command succeeded, did nothing, or failed part way.",
 ["histories","inputs"],"every command with any arguments on every reachable world",
 "Nothing is ever undone in the tests; the claim is over all commands and all worlds.",
 [C],[("Execute and Undo of each command","pkg/app/command.go")],None,["Command.Execute","Command.Undo"])
prop("A03","Undo and redo walk one linear history",
 "Undo steps the session back one executed command and redo re-applies the command last undone, so any mix of undos and redos reproduces the world as it was after the corresponding number of commands. The reported history and the can-undo and can-redo answers always describe that position, and executing a new command after an undo discards the undone ones.",
 ["histories"],"every interleaving of commands, undos and redos",
 "No test executes undo or redo.",
 [A],[("exec, undo, redo, History, CanUndo, CanRedo","pkg/app/main.go")],[dict(name="commandsIdx",meaning="position in history",where=A)],["App.History","App.CanUndo","App.CanRedo"])
prop("A04","Queries never change the world",
 "Fetching, listing, existence checks, containment and relationship queries, and showing the world leave every item, attribute, placement and relationship unchanged. Repeating a query gives the same answer, up to the order of what it lists.",
 ["histories","inputs"],"every query command with any arguments on every reachable world",
 "Only one query is executed by tests and the world is not compared afterwards.",
 [C,W],[("query commands","pkg/app/command.go")],None,["App.Exec","Command.Execute"])
prop("A05","Commands do what the command table says",
 "Each command executed on a world has exactly the documented effect of its verb on the named resources and nothing else (create, set, clear, delete, nest, free, create-or-fetch, create-or-set), and query commands answer according to the world's content. A command that reports success has taken effect; fetching, setting, clearing, nesting, freeing or relating something that does not exist reports an error, while deleting it or creating what already exists changes nothing.",
 ["histories","inputs"],"every command with any arguments on every reachable world",
 "The verb table in the README has about 25 verb/resource pairs; one is executed by tests.",
 [C,A,W],[("Execute of each command, InputToCommand","pkg/app/command.go")],None,["App.Exec"])
prop("A06","Sessions are independent of each other",
 "Commands, undo and redo in one session never change the world, the history or the undo and redo position of another session.",
 ["histories","inputs"],"every pair of sessions and every command in one of them",
 "Leaks need two sessions alive at once; every test has one.",
 [A,C],[("NewApp, Exec, undo, redo","pkg/app/main.go")],None,["App.World","App.History","App.CanUndo","App.CanRedo"])
prop("A07","Replaying the history rebuilds the world",
 "Executing the texts of the reported history, in order, in a new session on an equal starting world gives an equal world and an equal history, after any mix of commands, undos and redos.",
 ["histories","inputs"],"every history of commands, undos and redos on an empty world",
 "It relates whole histories to each other; no test executes a history twice.",
 [A,C],[("History, exec, undo, redo","pkg/app/main.go"),("Command.String","pkg/app/command.go")],None,["App.History","App.Exec","App.World"])
prop("P01","A saved world loads back equal under its name",
 "For every world with a plain name over the quotable character set, loading by the same name after a successful save yields an equal world, whatever other worlds were saved in between. Saving again replaces the earlier version.",
 ["histories","inputs"],"all worlds, names and save sequences",
 "One world with a fixed name and no attributes is saved and loaded.",
 [P_,W],[("Save, Load","pkg/persistence/main.go")],None,["Persistence.Save","Persistence.Load"])
prop("P02","Saving never writes outside the configured directory",
 "Whatever the world's name contains, saving either reports an error or creates or changes files only inside the configured source directory.",
 ["inputs"],"every world name",
 "Names range over all texts; the test uses test-world.",
 [P_],[("Save path construction","pkg/persistence/main.go")],None,["Persistence.Save"])
prop("P03","A save that fails keeps the previously saved version",
 "If saving a world fails or is cut short at any point (device full, write error, crash), the version saved before under that name is still there in full and loads unchanged. A save that did not write the whole world reports an error.",
 ["fault_sequences","crash_points"],"every prefix of the write that may reach the disk and every failing step",
 "Tests never inject a fault.",
 [P_],[("Save","pkg/persistence/main.go")],None,["Persistence.Save","Persistence.Load"])
prop("P04","Listing names exactly the saved worlds",
 "Listing worlds returns exactly the names under which worlds have been saved in the configured directory, each once, and each listed name can be loaded; other files are ignored.",
 ["histories","inputs"],"all sets of saved names and foreign files",
 "Listing is not tested.",
 [P_],[("ListWorlds","pkg/persistence/main.go")],None,["Persistence.ListWorlds"])
prop("P05","Loading never makes up a world",
 "Loading a name reports an error unless there is a complete saved world under that name: a missing, truncated, extended or foreign file never yields a world, and loading changes nothing in the directory.",
 ["inputs","fault_sequences"],"every name and every content of its file",
 "File contents range over all texts and all truncations; the test loads what it has just saved.",
 [P_,W],[("Load","pkg/persistence/main.go"),("FromString","pkg/world/world.go")],None,["Persistence.Load"])
prop("R01","Building on an error value never changes that value",
 "Adding a code, description, data or wrapped errors to an error yields a new value and leaves the original, and every other value derived from it, unchanged. The new value holds exactly the original's contents plus what was added.",
 ["histories","inputs"],"every sequence of builder calls with shared ancestors",
 "Aliasing only shows after a particular number of additions and two derivations from the same value.",
 [ER],[("UseCode, WithDescription, WithData, ClearData, WithError","pkg/errors/main.go")],None,["TopolithError"])
prop("R02","Error text carries its code and parses as a status",
 "The text of every error built by the system parses as an error status with the same code, and for texts over the allowed characters without wrapped errors with the same description and message. Choosing a known code sets that code's documented description.",
 ["inputs"],"all codes, descriptions, messages and wrapped errors",
 "One literal error is parsed, and only its kind is checked.",
 [ER,"pkg/errors/codes.go",G],[("String, UseCode","pkg/errors/main.go"),("StatusObject","pkg/grammar/grammar.peg.go")],None,["TopolithError.String"])
prop("R03","Joined and wrapped errors are all kept",
 "Joining errors keeps every non-nil one in order, and unwrapping yields the first wrapped error or nothing when there is none. The text of a wrapping error contains the text of each wrapped error.",
 ["inputs"],"all lists of errors, including nil ones",
 "Joining is not tested.",
 [ER],[("Join, WithError, Unwrap, String","pkg/errors/main.go")],None,["errors.Join","TopolithError.Unwrap"])
prop("C01","Browser replies mirror the response",
 "For every response text the browser bridge reports the response's own status code, object and raw text, gives error details exactly when the code is not 200, and turns text that does not parse into a code-500 reply instead of crashing.",
 ["inputs"],"every response text",
 "The bridge has no tests at all.",
 ["cmd/wasm/main.go"],[("toReply","cmd/wasm/main.go")],None,["toReply"])
prop("C02","The console answers each line as the app does",
 "For every line typed, the console prints exactly the app's answer to the trimmed line, prints nothing for a blank line, and for text outside the language prints a line beginning with 'invalid input:' and leaves the world as it was; it never crashes. For every text before the cursor it suggests exactly the listed commands that begin with that text, ignoring case.",
 ["inputs"],"every line and every text before the cursor",
 "The console has no tests at all.",
 ["cmd/cli/main.go"],[("executor, completer","cmd/cli/main.go")],None,["executor","completer"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
