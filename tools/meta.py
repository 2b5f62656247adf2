#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "symbolic execution of the compiled code's SSA form with an SMT solver (z3), within stated bounds, counterexamples replayed on the real build"
STORE = " Trusted: the engine's semantics of Go SSA (sampled paths are re-run natively on every run) and the contract model of the file storage library."
P = []
def p(id, title, stmt, over, text, why, files, mech, note, observe=None):
    P.append(dict(id=id, title=title, stmt=stmt, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=observe or []))

OD = ["ordereddict.go", "bptree/bptree.go", "bptree/leaf.go", "bptree/nonleaf.go", "bptree/leaflist.go", "bptree/key.go", "bptree/value.go"]
IT = ["ordereddict.go", "bptree/iterator.go", "bptree/bptree.go", "bptree/leaf.go"]
DI = ["dict.go", "hashmap/hashmap.go", "hashmap/internal/protocol/hashmap.pb.go", "hashmap/internal/protocol/bytesview.go"]

p("C01", "OrderedDict point operations behave like a map",
  "After any history of Set, SetIfExists, SetIfNotExists, Clear and Test on an OrderedDict, every operation acts as on a map from byte strings to byte strings: it reports presence correctly, returns the replaced, removed or present value exactly when asked for, and changes only the given key. SetIfExists only replaces and SetIfNotExists only adds. Any byte string, including the empty one, is a valid key or value (in a slice other than the markers MinKey and MaxKey themselves).",
  ["inputs", "histories"], "every key and value (any length class), every return flag, on trees of every shape near a split, borrow or merge",
  "The tests insert and delete one fixed keyword list; they do not vary record sizes, so most of the paths that shift, split or merge nodes with records of mixed sizes never run, and returned values are checked on few keys.",
  OD, [("findRecord / LocateRecord / LocateChild", "bptree/bptree.go, leaf.go, nonleaf.go"), ("insertRecord, removeRecord, replaceValue", "bptree/bptree.go")],
  "Inductive step from arbitrary-looking valid trees (heights 1-3, loads at the thresholds, three size patterns) plus all short histories from an empty file; keys symbolic in the bytes that order them. Not covered: trees higher than 3 and load combinations other than those listed.", ["OrderedDict API"])
p("C02", "OrderedDict ranges yield exactly the records in the range, in order",
  "RangeAsc and RangeDesc yield every record whose key lies in [minKey, maxKey] exactly once, in ascending respectively descending key order, and nothing else; an inverted or empty range yields nothing. MinKey and MaxKey (the very slices) stand for the smallest and the largest key present, at either bound; ordinary keys that merely spell like them are ordinary keys.",
  ["inputs", "histories"], "every pair of bounds of every kind, both directions, on trees of zero, one and several leaves",
  "The tests iterate between a few fixed bounds of one data set; absent bounds before, between and after leaves, single-record and empty ranges, and bounds equal to each other are not covered.",
  IT, [("search", "bptree/bptree.go"), ("forwardIterator, backwardIterator", "bptree/iterator.go")],
  "Both bounds symbolic (all orderings of each bound against every record are decided by the solver). Trees of up to 25 records in quick, height 3 in thorough.", ["OrderedDict.RangeAsc", "OrderedDict.RangeDesc"])
p("C03", "The B+ tree stays well formed and its pages never overflow",
  "After any operation the stored tree is balanced and sorted: keys strictly ascend, each separator equals the smallest key of its subtree, the leaf list links all leaves in key order in both directions, and record data lie inside the page without overlap. No page is ever filled beyond the point where one more record or child of the largest possible size would not fit, and every page other than the root keeps at least the minimum fill (three eighths of that capacity).",
  ["inputs", "histories"], "every key, record sizes of every class, every combination of loads around the thresholds for a leaf, an inner node and their siblings",
  "The tests only call the public API with similar-sized short records; a page that is overfull or a separator that is stale shows up only for particular record sizes at particular loads.",
  OD, [("ensureNotOverloadLeaf/NonLeaf, ensureNotUnderloadLeaf/NonLeaf, syncKey", "bptree/bptree.go"), ("Count...Shifting, ShiftTo..., SplitAt", "bptree/leaf.go, nonleaf.go"), ("leaf list", "bptree/leaflist.go")],
  "One-step induction from valid pages at exact loads; the file is then parsed by an independent reader. Loads are chosen at and next to the thresholds, not all loads.", ["file contents after Close"])
p("C04", "An OrderedDict survives Close and reopening unchanged",
  "Closing an OrderedDict and opening the file again yields exactly the same records and the same statistics, whatever operations came before, and the dictionary can be closed and reopened any number of times. The file holds every record with its exact key and value in the documented page format.",
  ["inputs", "histories"], "every reachable content before closing, any count values up to 2^50, addresses beyond 4 GiB",
  "The tests reopen one data set; field widths, large counts and addresses, and reopening between any two operations are not covered.",
  ["ordereddict.go", "bptree/bptree.go"], [("Store, Load, bpTreeInfo", "bptree/bptree.go"), ("OpenOrderedDict, Close", "ordereddict.go")],
  "Every harness that changes a tree closes the file and an independent reader parses it; histories with reopening between any two operations.", ["file contents after Close"])
p("C05", "Long keys and values in an OrderedDict are kept and compared in full",
  "Keys of more than 256 bytes and values of more than 128 bytes, which are stored partly outside the page, are read back byte for byte, replaced and removed in full, and keys are compared and ordered by all of their bytes, however long the common prefix. Partial reads through an iterator return exactly the bytes at the requested offset, never more than the buffer holds or the data has, and size getters return the full length.",
  ["inputs"], "lengths around every boundary (page prefix, inline limit, length-of-length), every change of length class, every offset and many buffer sizes",
  "The unit tests compare a handful of fixed lengths and read with a few offsets; transitions between inline and external storage and keys that differ only in the external part are hardly exercised.",
  ["bptree/key.go", "bptree/value.go", "bptree/leaf.go", "bptree/iterator.go"], [("keyFactory, keyComparer", "bptree/key.go"), ("valueFactory", "bptree/value.go"), ("SetValue", "bptree/leaf.go")],
  "Bytes at the boundaries and the offset are symbolic; lengths are enumerated around each boundary.", ["OrderedDict API", "iterator getters"])
p("C06", "An OrderedDict neither leaks file space nor releases what it uses",
  "After any history, exactly the spaces that hold the tree's pages, the external parts of long keys and values and the info record are allocated in the file: nothing else stays allocated, nothing in use is released and nothing is released twice. Destroying an emptied tree releases everything it owned and leaves other structures in the same file alone.",
  ["inputs", "histories"], "every operation that creates, replaces or removes pages or external data, on trees of every shape class",
  "A leak of a few bytes or a page is invisible through the API; the tests only log the storage statistics.",
  OD, [("createLeaf/destroyLeaf, createNonLeaf/destroyNonLeaf", "bptree/bptree.go"), ("allocate.../free...Overflow", "bptree/key.go, value.go"), ("Load frees, Store allocates the info record", "bptree/bptree.go")],
  "The storage model tracks every allocation; an independent reader collects the reachable spaces.", ["allocated spaces of the file"])
p("C07", "OrderedDict statistics are exact",
  "The statistics of an OrderedDict always equal the facts: number of records, payload size (sum of the lengths of all keys and values), number of leaf and inner pages, and tree height. They are the same before closing and after reopening.",
  ["inputs", "histories"], "every operation on trees of every shape class, any return flag",
  "The tests check the counts only at the end of one run (all zero); the payload accounting depends on the return flag and the length classes of old and new values.",
  OD, [("recordCount, payloadSize, leafCount, nonLeafCount, height", "bptree/bptree.go")],
  "Checked together with C01/C03 after every operation and against the parsed file.", ["OrderedDict.Stats"])
p("C08", "An OrderedDict iterator behaves at and beyond its end",
  "Before its end an iterator's getters all return the current record without error and without moving; Advance moves by one record and returns the iterator itself. At the end, also of a range that was empty from the start, IsAtEnd is true, every getter returns an error and no data, and Advance does nothing, any number of times. Several iterators over an unchanging dictionary, and Test calls between their steps, do not disturb each other.",
  ["inputs"], "every pair of bounds (including inverted and absent ones), both directions; pairs of iterators with a read of any key between the steps",
  "The tests stop at the end of an iteration and never call getters or Advance there, nor on an empty range.",
  IT, [("preAdvance, isAtEnd checks", "bptree/iterator.go")],
  "Bounds symbolic; every getter called at the first and last records, at the end and twice beyond it. Pairs of iterators start at the ends or the middle, at most two steps apart.", ["iterator methods"])
p("C09", "No operation uses a view of the file after the storage has moved",
  "The file storage may move its mapping whenever space is allocated or released. Every operation of OrderedDict and Dict gives the right result, and never touches invalid memory, when the mapping moves at every allocation and release.",
  ["inputs", "histories", "configurations"], "every operation of both dictionaries with a storage that invalidates all earlier views at each allocation and release",
  "In the tests the mapping rarely moves, at sizes the tests do not control, so a stale view usually still points at the right bytes.",
  OD + DI + ["bptree/iterator.go"], [("controllers are fetched again after allocation", "bptree/bptree.go, leaf.go, nonleaf.go"), ("addrRef.Get/Set", "hashmap/hashmap.go")],
  "The storage model traps any access through a view obtained before the latest allocation or release; findings are reproduced over a storage twin that unmaps old views.", ["memory faults, results"])
p("C10", "Buffers never alias the store",
  "The dictionaries never write to a key or value given by the caller and keep no reference to it; every slice they return, up to its capacity, belongs to the caller alone. Overwriting any such buffer later changes neither the stored data nor the results of running scans.",
  ["inputs", "histories"], "every operation, short and long keys and values, overwriting every buffer given or received with arbitrary bytes",
  "The tests never modify a buffer after passing or receiving it.",
  ["bptree/key.go", "bptree/value.go", "bptree/common.go", "bptree/leaf.go", "hashmap/hashmap.go"], [("copyBytes, ReadKeyAll, ReadValueAll", "bptree/common.go, key.go, value.go"), ("copyBytes in getValue, removeItem, replaceValue, FetchItem", "hashmap/hashmap.go")],
  "Buffers carry guard bytes and are overwritten with a symbolic byte, then all contents are compared.", ["results after overwriting buffers"])
p("C11", "Dict point operations behave like a map",
  "After any history of Set, SetIfExists, SetIfNotExists, Clear and Test on a Dict, every operation acts as on a map from byte strings to byte strings: it reports presence correctly, returns the replaced, removed or present value exactly when asked for, and changes only the given key. Different keys are different items even if their hashes are equal, and any byte string, including the empty one, is a valid key or value.",
  ["inputs", "histories"], "every key (short and long, hash collisions included) and value, every return flag, tables of every size class and load",
  "The tests use one list of short keywords: no two keys of equal hash, no empty keys, no long ones among short ones in one slot.",
  DI, [("locateItem, matchItem", "hashmap/hashmap.go"), ("appendItem, removeItem, replaceValue", "hashmap/hashmap.go")],
  "Inductive step from built tables of 1-8 slots (thorough: up to 17; directory boundaries up to 32768 slots) plus all short histories from an empty file. Keys longer than three bytes are symbolic in their last bytes only.", ["Dict API"])
p("C12", "A Dict scan yields every pair exactly once",
  "Scanning a Dict that is not modified, starting from the zero cursor, yields every key-value pair exactly once and then reports the end, and keeps reporting it. Several scans may be interleaved, and read operations between the steps do not disturb a scan.",
  ["inputs", "histories"], "tables of every size class and load, arbitrary keys and values, two cursors in every interleaving",
  "The tests scan one table once.",
  ["dict.go", "hashmap/hashmap.go"], [("FetchItem, Cursor", "hashmap/hashmap.go")],
  "Tables of 1-8 slots; concurrent modification during a scan is not specified and not claimed.", ["Dict.Scan"])
p("C13", "Dict resizing keeps every item reachable and follows the load",
  "A Dict grows and shrinks one slot at a time so that the load factor stays within the golden ratio and half of it, and after every step each item lies in the slot its hash selects, directories are added and removed with hysteresis, and the directory array has room for them. No item is lost, duplicated or becomes unreachable by resizing, and an emptied table is back at one slot.",
  ["inputs", "histories"], "every slot count up to 8 (17), powers of two on either side, directory boundaries, arbitrary keys",
  "The tests grow and shrink one table with one key list; the directory array growth and shrink points need tens of thousands of items.",
  ["hashmap/hashmap.go"], [("maybeExpand, maybeShrink, splitItems, mergeItems", "hashmap/hashmap.go"), ("addSlotDir, removeSlotDir, adjustSlotDirs", "hashmap/hashmap.go")],
  "Step from tables at the exact load bounds; directory boundaries with concrete keys and symbolic values.", ["file contents, Stats"])
p("C14", "A Dict survives Close and reopening unchanged",
  "Closing a Dict and opening the file again yields exactly the same items and statistics, whatever operations came before, and the dictionary can be closed and reopened any number of times. The file holds every item with its exact key and value in the documented format.",
  ["inputs", "histories"], "every content before closing, payload sizes around every encoded length up to 2^49, addresses beyond 4 GiB",
  "The tests reopen nothing but one small data set; encoded lengths of large numbers and addresses are not covered.",
  DI, [("Store, Load", "hashmap/hashmap.go"), ("HashMapInfo, HashSlot encoding", "hashmap/internal/protocol/hashmap.pb.go")],
  "An independent reader parses the closed file in every harness that changes a table; histories with reopening between any two operations.", ["file contents after Close"])
p("C15", "A Dict neither leaks file space nor releases what it uses",
  "After any history, exactly the spaces that hold the slots in use, the slot directories, the directory array and the info record are allocated in the file: nothing else stays allocated, nothing in use is released and nothing is released twice. Destroying an emptied table releases everything it owned and leaves other structures in the same file alone.",
  ["inputs", "histories"], "every operation, including those that empty or fill a slot, resize the table or move the directory array",
  "Leaks are invisible through the API; the tests only log the storage statistics.",
  ["hashmap/hashmap.go"], [("storeSlot, eraseSlot, restoreSlot", "hashmap/hashmap.go"), ("addSlotDir, removeSlotDir, adjustSlotDirs, Load, Destroy", "hashmap/hashmap.go")],
  "The storage model tracks every allocation; an independent reader collects the reachable spaces.", ["allocated spaces of the file"])
p("C16", "Dict statistics are exact",
  "The statistics of a Dict always equal the facts: number of items, payload size (sum of the lengths of all keys and values), number of slots and of slot directories. They are the same before closing and after reopening.",
  ["inputs", "histories"], "every operation on tables of every size class, any return flag",
  "The tests check the counts only at the start and the end of one run.",
  ["dict.go", "hashmap/hashmap.go"], [("itemCount, payloadSize, slotCount, slotDirCount", "hashmap/hashmap.go")],
  "Checked together with C11/C13 after every operation and against the parsed file.", ["Dict.Stats"])
p("C17", "A Dict keeps keys and values of any length intact",
  "Items whose keys and values have any lengths, in particular around the points where the encoding of a length or of a slot changes, are read back byte for byte, replaced and removed in full, wherever they stand in their slot. Neighbouring items in the slot are not affected.",
  ["inputs"], "lengths 0, 1, around 24 and 127, hundreds of bytes (thorough: around 16384), arbitrary bytes, before and after other items",
  "The tests use short keywords only, so multi-byte lengths and stored checksums for long keys are not exercised at their boundaries.",
  DI, [("packSlot, unpackSlot", "hashmap/hashmap.go"), ("Size, MarshalTo, Unmarshal", "hashmap/internal/protocol/hashmap.pb.go")],
  "Lengths are enumerated at the boundaries; contents symbolic at the ends.", ["Dict API", "file contents"])
p("C18", "Operations that do nothing leave the store unchanged",
  "SetIfExists of an absent key, SetIfNotExists of a present one, Clear of an absent key, Test, iterations, scans, and closing and reopening change nothing: the contents, the statistics and the set of allocated spaces stay as they were. This holds for OrderedDict and Dict.",
  ["inputs", "histories"], "arbitrary present or absent keys, short and long, on structures of every shape class",
  "The tests check the boolean results of failing operations, not that nothing else changed.",
  OD + IT[1:2] + DI, [("early returns in AddRecord/UpdateRecord/DeleteRecord/HasRecord", "bptree/bptree.go"), ("early returns in AddItem/UpdateItem/DeleteItem/HasItem, FetchItem", "hashmap/hashmap.go")],
  "Contents, statistics and allocations compared with the state before, keys symbolic.", ["Stats, file contents, allocated spaces"])

p("C19", "A Dict scan goes on safely while the Dict is changed",
  "A scan of a Dict that is changed between the steps of the scan still ends and yields only pairs that were in the dictionary at some moment of the scan. An item that is present throughout is yielded, unless the table has shrunk meanwhile; and it is yielded only once if the number of slots never changed (replacing values, or removing what the scan has just returned, for instance).",
  ["inputs", "histories"], "every position of the change within the scan, every operation and key, tables about to grow or to shrink",
  "The tests never change a table while they scan it.",
  ["dict.go", "hashmap/hashmap.go"], [("FetchItem, Cursor", "hashmap/hashmap.go"), ("splitItems, mergeItems, maybeExpand, maybeShrink", "hashmap/hashmap.go")],
  "One change per scan (thorough: two) on tables of 1-5 slots. That items may be missed when a table shrinks, or repeated when it is resized, follows from how the cursor is defined and is not counted against it.", ["Dict.Scan"])
p("C20", "Opening creates a dictionary only when asked and never loses one",
  "Opening a file that does not exist creates an empty dictionary if the caller asks for that, and otherwise fails with an error and creates nothing. Opening an existing one, with or without that flag, brings back its contents; a failed open yields no dictionary.",
  ["inputs", "histories"], "every sequence of opens with either flag, arbitrary contents, both kinds of dictionaries",
  "The tests open one new file with the flag and reopen it without.",
  ["dict.go", "ordereddict.go"], [("OpenDict, OpenOrderedDict", "dict.go, ordereddict.go")],
  "Three opens with arbitrary flags and one-byte keys and values between them. What happens to foreign or damaged files is not covered.", ["OpenDict", "OpenOrderedDict"])
p("C21", "Open dictionaries do not disturb each other",
  "With calls made one after another, dictionaries that are open at the same time do not influence each other: operations, iterators, scans and returned values of one are not affected by what is done to, or by closing, another. The same holds for trees and hash maps that share one file storage, also after they are stored and loaded again, in any order.",
  ["inputs", "histories"], "two dictionaries of any shape class, arbitrary keys, an iteration or scan of one in progress while the other changes",
  "The tests hold one dictionary open at a time.",
  OD + IT[1:2] + DI, [("package-level state and shared buffers", "bptree, hashmap"), ("Store, Load", "bptree/bptree.go, hashmap/hashmap.go")],
  "One operation on each of two structures. Use of one dictionary by several goroutines at once is not promised by the library and not covered.", ["results of one dictionary after operations on another"])
p("C22", "The text dump of a B+ tree is complete and reports write errors",
  "Fprint writes every record and every separator key of the tree, in key order, one per line, with the whole key and the whole value in quoted form, drawn as a tree in which each line is indented by its depth. When the writer fails, it stops writing and returns the writer's error. It changes neither the tree nor the storage.",
  ["inputs", "fault_sequences"], "trees of height 1 to 3, keys and values of 0 to 300 bytes with arbitrary bytes among them, a writer that fails in any line",
  "The tests compare dumps of a few trees of short keys; no writer fails.",
  ["bptree/fprint.go"], [("doFprint", "bptree/fprint.go"), ("ReadKeyAll, ReadValueAll", "bptree/key.go, bptree/value.go")],
  "Nine tree shapes; the writer fails at the start, within or at the end of any line.", ["BPTree.Fprint"])

NA = []
if __name__ == "__main__":
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["stmt"],
                "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
                "anchors": {"files": sorted(set(x["files"])), "mechanism": [{"name": a, "where": b} for a, b in x["mech"]], "observe_at": x["observe"], "hook_needed": None}}) + "\n")
    na = {n["property"] for n in NA}
    m = {"version": 1, "setup_cmd": "./setup.sh",
         "checks": [{"property": x["id"], "quick_cmd": "./check.sh %s quick" % x["id"], "thorough_cmd": "./check.sh %s thorough" % x["id"],
                     "technique": T, "level": "model_checking", "level_note": x["note"] + STORE} for x in P if x["id"] not in na],
         "not_applicable": NA,
         "notes": "No hooks in /repo. Findings repaired in /repo are listed in known_findings.txt; see DESIGN.md."}
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
