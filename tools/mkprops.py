"""Writes properties.jsonl (kept here because JSON lines are hard to edit)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['durus/' + f for f in files],
                     state=[dict(name=a, meaning=b) for a, b in state],
                     mechanism=[dict(name=m, where='durus/' + files[0]) for m in mech])))


p('C01', 'Committed records survive, last write wins',
  'After any sequence of completed transactions, with the storage closed and reopened anywhere in between, loading an object returns exactly the bytes of its most recently committed record, and an object never written is reported missing. A transaction that was begun and never completed contributes nothing. Iterating over the storage yields every object exactly once with its current record.',
  ['histories', 'inputs'], 'all transaction histories, record contents and lengths, object identifiers, and reopen points, for each storage kind',
  'tests store a few fixed records; neither arbitrary contents nor which objects each transaction overwrites nor abandoned transactions are varied',
  ['file_storage.py', 'file_storage2.py', 'sqlite_storage.py', 'storage.py', 'shelf.py', 'file.py', 'utils.py'],
  ['transactions appended to a log file', 'index rebuilt on open', 'fixed index plus memory index'],
  [('memory_index', 'latest position of each object written since the last pack')])
p('C02', 'A crash never tears or loses a committed transaction',
  'When the machine stops at any point, reopening the file storage with repair shows exactly the state after some whole number of transactions, including every transaction whose commit had returned; opening without repair shows such a state or refuses. The repaired storage accepts further transactions, which survive reopening.',
  ['crash_points', 'inputs', 'histories'], 'every prefix of the sequence of file operations, with the last write torn at any byte, after at least every operation that was forced to disk',
  'one test truncates a file at one place; crash points inside header, length and record writes are not visited',
  ['shelf.py', 'file_storage.py', 'file_storage2.py', 'file.py'],
  ['append, then patch the length', 'repair truncates the incomplete tail', 'fsync before the commit returns'])
p('C03', 'A failed write leaves the storage as it was',
  'If a write, truncate, flush or sync fails once while a transaction is being committed, the commit raises an error and the storage then shows the state before that transaction. Later transactions succeed and survive reopening.',
  ['fault_sequences', 'inputs'], 'a failure of any single file operation of a commit, including a short write of any length',
  'no test injects I/O errors',
  ['shelf.py', 'file_storage.py', 'file_storage2.py', 'sqlite_storage.py'],
  ['revert by truncation', 'rollback'])
p('C04', 'Packing preserves everything reachable',
  'After a pack every object reachable from the root has its most recently committed record, including objects committed, modified or linked again while the pack was running (links being made to objects still stored), and this also holds after reopening. Objects are removed only when they are unreachable.',
  ['histories', 'schedules', 'inputs'], 'every object graph within the bounds, and every commit interleaved at every step of the incremental pack',
  'tests pack a small static graph or one interleaving',
  ['file_storage.py', 'file_storage2.py', 'sqlite_storage.py', 'shelf.py'],
  ['incremental packer that yields to the server', 'pack_extra collects what is committed meanwhile'],
  [('pack_extra', 'objects committed since the pack began')])
p('C05', 'A crash during a pack loses nothing',
  'When the machine stops at any point of a pack, every committed object that is reachable can still be read from the database file or, in the short time when it is being replaced, from the complete old or new file beside it. The new file is complete and on disk before it takes the place of the old one.',
  ['crash_points', 'histories'], 'every prefix of the file operations of a pack, with unsynced data lost or kept',
  'no test interrupts a pack', ['file_storage.py', 'file_storage2.py', 'file.py', 'shelf.py'],
  ['write to a side file, sync, rename'])
p('C06', 'Objects removed by a pack are reported',
  'Every object that a pack removes is reported by the next synchronisation, so that no client keeps using its cached copy, and nothing is reported twice. Reported objects that are still stored keep their current record.',
  ['histories'], 'every object graph and set of unreachable objects, including identifiers above all the remaining ones, and commits during the pack',
  'tests check one removed object', ['file_storage.py', 'file_storage2.py', 'sqlite_storage.py', 'shelf.py'],
  ['holes of the new index', 'set of invalid objects'])
p('C07', 'Object identifiers are never handed out twice',
  'A newly allocated identifier is different from that of every stored object, from every identifier allocated before by the same storage instance and not removed by a pack since, and from those removed by a pack but not reported to the clients yet. This holds after reopening, after packing and after transactions that use only some of the allocated identifiers.',
  ['histories', 'inputs'], 'all histories of allocation, commit, pack and reopen within the bounds, for each storage kind',
  'tests allocate a handful in fresh storages', ['file_storage.py', 'file_storage2.py', 'sqlite_storage.py', 'storage.py', 'shelf.py'],
  ['linked list of unused slots, then increasing numbers', 'highest identifier found on open'])
p('C08', 'One writer, and readers never write',
  'While a file storage is open for writing no other one can be opened for writing on the same file, also between the steps of a pack and after it; closing it lets another one in. A storage opened read-only never changes the file, and refuses to store or pack.',
  ['histories', 'configurations'], 'all sequences of open, close, commit and pack by two users',
  'tests check two cases', ['file.py', 'file_storage.py', 'file_storage2.py', 'shelf.py'], ['exclusive lock, kept through the renames of a pack'])
p('C09', 'Traversal visits exactly the reachable records',
  'Traversing a storage from any starting object yields every object reachable from it exactly once with its current record, for every batch size. The index of references, the search for referring objects and the census agree with the records.',
  ['inputs', 'configurations'], 'all reference graphs within the bounds, including cycles and self references, all batch sizes',
  'tests traverse one small graph', ['storage.py', 'file_storage.py', 'file_storage2.py', 'sqlite_storage.py', 'connection.py'], ['heap of pending objects, set of seen ones, batches'])
p('C10', 'A commit stores the whole new graph, and it reads back equal',
  'After a commit every object reachable from the root is stored, and a fresh connection sees the same values, classes, sharing and cycles. Stored references name exactly the objects referred to. Referring to an object of another connection is refused and stores nothing.',
  ['inputs', 'programs'], 'all object graphs within the bounds and all assignments of references and values',
  'tests commit a few fixed graphs', ['connection.py', 'serialize.py', 'persistent.py'], ['writer assigns identifiers while pickling', 'new objects are found transitively'])
p('C11', 'Abort restores the committed state',
  'After an abort every object that was stored shows its most recently committed state, whatever was changed, read or created since, and the next commit stores none of the discarded changes.',
  ['programs', 'histories'], 'all sequences of reads, changes, creations, commits and aborts within the bounds',
  'tests abort after one change', ['connection.py', 'persistent.py'], ['changed objects become ghosts'])
p('C12', 'No update is lost between concurrent clients',
  'If two clients change the same object, or one commits a change to an object that the other one has read in its transaction, the second commit of the two raises a conflict and changes nothing. After the conflict and an abort the client sees the winning state and can commit. A transaction in which everything read or changed is still current commits without a conflict.',
  ['schedules', 'histories'], 'all interleavings of two clients reading, writing, committing and aborting within the bounds',
  'tests cover a few fixed interleavings', ['connection.py', 'client_storage.py', 'storage_server.py', 'persistent.py'], ['invalidation lists', 'access serial of each object'],
  [('invalid', 'objects a client must be told about'), ('transaction_serial', 'identifies the current transaction')])
p('C13', 'A transaction sees one consistent snapshot',
  'All the values a client reads in one transaction, together, were the committed state at one moment, or a read conflict is raised. After an abort or commit the client sees all that was committed before.',
  ['schedules', 'histories'], 'all interleavings of a reader with a writer, with any part of the objects already loaded',
  'tests cover a few fixed interleavings', ['connection.py', 'client_storage.py', 'storage_server.py'], ['loading an object known to be changed is a conflict'])
p('C14', 'A failed commit can be retried',
  'When a commit fails, because of a conflict, an object that can not be stored, or an error of the storage, nothing of it is stored. Once the cause is gone, repeating the commit (or, after a conflict, the work) stores everything, including the new objects.',
  ['fault_sequences', 'programs'], 'every point of failure within a commit of every small object graph',
  'tests only retry after one conflict', ['connection.py', 'serialize.py', 'client_storage.py'], ['clean up of identifiers and status of new objects'])
p('C15', 'Changed objects are stored, touched ones are tracked',
  'Setting or deleting an attribute of a stored object, also one that is not loaded yet, makes the next commit store it; reading never does. Reading or changing an unloaded object loads its committed state first, and every access is remembered for the current transaction.',
  ['programs', 'inputs'], 'all sequences of attribute operations with any attribute names on objects in any state',
  'tests exercise single operations', ['persistent.py', 'connection.py'], ['status of each object: unsaved, saved, ghost'])
p('C16', 'The C and Python attribute rules agree',
  'For every attribute name and every object status, the C implementation loads state, notes access and notes changes exactly when the documented rule (and the Python implementation) does. It never reads outside the name, never crashes, propagates every error, and releases every reference it holds exactly once.',
  ['inputs', 'fault_sequences'], 'all attribute names up to a bounded length, all statuses, all failures of the called methods',
  'tests use a few names', ['_persistent.c', 'persistent.py'], ['prefix test written by hand in C'])
p('C17', 'Shrinking the cache never changes what is seen',
  'Whatever the cache size and whenever objects are evicted, a program reads the same values, and each stored object is represented by one live instance at a time. Changed and currently used objects are never evicted.',
  ['configurations', 'programs'], 'all cache sizes and sequences of accesses, changes, drops of references, commits and aborts within the bounds',
  'tests use two sizes and one access pattern', ['connection.py', 'persistent.py', 'serialize.py'], ['heap of least recently used objects', 'weak references'])
p('C18', 'The protocol does not depend on fragmentation',
  'Whatever requests a client makes, and however the network splits the bytes into pieces, client and server exchange exactly the requested records, identifiers and answers, and stay in step.',
  ['inputs', 'schedules'], 'all request sequences, record contents and lengths within the bounds, and all partial sends and receives',
  'tests use a local socket, which hardly ever splits messages', ['client_storage.py', 'storage_server.py', 'utils.py'], ['length-prefixed messages, loops around send and recv'])
p('C19', 'A broken client harms nobody else',
  'If a client disconnects or sends malformed bytes at any point of the protocol, no part of an incomplete transaction is stored, the server keeps serving the other clients, and their later transactions are complete and correct.',
  ['fault_sequences', 'inputs'], 'disconnection after every byte of every message, and arbitrary bytes as a commit',
  'no test sends broken messages', ['storage_server.py', 'file_storage.py', 'file_storage2.py'], ['whole transaction is read before it is stored', 'client is dropped on error'])
p('C20', 'Clients never share an object identifier',
  'The server never gives the same identifier to two clients, nor one that is in use or that a client still has to be told was removed. A commit that uses an identifier allocated to another client is refused.',
  ['histories', 'schedules'], 'all sequences of allocation, commit, pack and disconnection by two clients within the bounds',
  'tests use one client', ['storage_server.py', 'client_storage.py'], ['pool of identifiers per client'])
p('C21', 'A BTree is a sorted map',
  'After any sequence of insertions, overwrites and deletions, present or absent keys alike, a BTree agrees with an ordinary map on lookup, containment, length, truth, minimum, maximum, and its items in both directions.',
  ['histories', 'inputs'], 'every valid tree within the bounds (any shape, any keys) and every operation and key, which covers all histories that stay within them',
  'tests insert and delete in a few orders', ['btree.py'], ['split before descending, merge or shift before deleting'])
p('C22', 'BTree ranges yield exactly the items between the bounds',
  'Iterating over a range, forward or backward, from a key or between two keys, open or closed at either end, yields exactly the items in that range in order, whether or not the bounds are keys.',
  ['inputs'], 'every valid tree within the bounds, all bounds, all flags', 'tests check a few ranges of one tree', ['btree.py'], ['recursive generators with early exit'])
p('C23', 'A BTree stays balanced and records what it changed',
  'After every operation all leaves are at the same depth, every node but the root is at least half full and none overflows, and the stored counts are right. Every node whose contents changed is marked for the next commit, so that a fresh reader sees the same tree.',
  ['inputs', 'histories'], 'every valid tree within the bounds, every operation and key', 'tests look at the result only through the same objects', ['btree.py', 'persistent.py'], ['explicit change notes', 'incremental counts'])
p('C24', 'A PersistentDict behaves like a dict and tracks changes',
  'Every operation of a persistent dictionary gives the result, error and contents an ordinary dictionary gives. Every operation that changes the contents marks the object as changed, and operations that only read never do.',
  ['inputs', 'programs'], 'all small contents and all arguments of every operation', 'tests use fixed contents', ['persistent_dict.py'], ['wrapper with explicit change notes'])
p('C25', 'A PersistentList behaves like a list and tracks changes',
  'Every operation of a persistent list gives the result, error and contents an ordinary list gives. Every operation that changes the contents marks the object as changed, and operations that only read never do.',
  ['inputs', 'programs'], 'all small contents and all arguments, indices and slices of every operation', 'tests use fixed contents', ['persistent_list.py'], ['wrapper with explicit change notes'])
p('C26', 'A PersistentSet behaves like a set and tracks changes',
  'Every operation of a persistent set gives the result, error and contents an ordinary set gives. Every operation that changes the contents marks the object as changed, and operations that only read never do.',
  ['inputs', 'programs'], 'all small contents and all arguments of every operation', 'tests use fixed contents', ['persistent_set.py'], ['wrapper with explicit change notes'])
p('C27', 'Arrays kept in files behave like arrays',
  'The byte, bit, word and integer arrays stored in a file return what was last assigned at each index and nothing else changes, they reject indices and values out of range, and reopening the file at the same place gives the same array.',
  ['inputs', 'histories'], 'all sizes, word widths, indices (also negative), values and start offsets within the bounds', 'tests use a few sizes', ['utils.py'], ['arithmetic on positions'])
p('C28', 'An integer set contains exactly what was added',
  'A set of whole numbers contains a number exactly if it was added and not discarded since, for every order of operations, every number, and every initial size.',
  ['inputs', 'histories'], 'all operation sequences, numbers and initial sizes within the bounds', 'tests use a few numbers', ['utils.py'], ['bit array that grows'])
p('C29', 'The offset index finds every object and every hole',
  'The on-disk index returns the position stored for every object and nothing for the others, and the unused numbers it enumerates are exactly those without a position, each once, for every index size.',
  ['inputs'], 'all sizes and sets of used slots within the bounds, all positions', 'tests use small fixed sets', ['shelf.py', 'utils.py'], ['unused slots hold a linked list, told apart by magnitude'])
p('C30', 'Records and messages decode to what was encoded',
  'Packing and unpacking records, identifiers, lengths and length-prefixed strings are inverse to each other for all values in range. A number, string or message that ends early is an error, never a wrong value. Lists of references are split at the right places.',
  ['inputs', 'schedules'], 'all lengths and contents, all 32 and 64 bit numbers, all partial reads and writes', 'tests use a few values', ['serialize.py', 'utils.py'], ['big-endian length prefixes'])
p('C31', 'The object cache never returns a dead or removed object',
  'The weak dictionary of cached objects returns exactly the live objects that were set and not deleted since, whenever objects die, also during an iteration, and setting a key again after its object died or was deleted works.',
  ['histories', 'schedules'], 'all sequences of set, delete, get, iteration steps and deaths within the bounds', 'tests use one sequence', ['connection.py'], ['removal delayed to the next iteration'], [('dead', 'keys to remove later')])
p('C32', 'Files follow the documented format',
  'Whatever is committed and packed, the file has the documented layout, so that an independent reader finds the same records; and a file laid out as documented by an independent writer is read correctly.',
  ['inputs', 'histories'], 'all record contents and lengths and all small histories', 'tests only read back with the same code', ['shelf.py', 'file_storage2.py', 'file_storage.py'], ['sequence of length-prefixed parts'])
p('C33', 'Computed attributes never show a stale value',
  'A computed attribute returns the value computed since its last invalidation, computes it at most once between invalidations, and after one client invalidates it and commits, the other clients compute it again in their next transaction.',
  ['histories', 'schedules'], 'all sequences of get, invalidate, commit and abort by two clients', 'tests use one sequence', ['persistent.py', 'connection.py'], ['value kept outside of the stored state'])

p('C34', 'A server collects garbage by itself when its limit is reached',
  'With a limit given, as soon as the bytes committed since the last collection reach it, a collection starts; it goes on whenever no client asks for anything, ends with what is unreachable gone and everything reachable intact, and the counting starts again. Below the limit, and without a limit, nothing is removed. Clients get correct answers all the while, and a storage that cannot be packed goes on being served.',
  ['inputs', 'histories', 'schedules'], 'all limits, sizes of commits, and schedules of requests and idle steps within the bounds', 'tests never run the automatic collection', ['storage_server.py', 'file_storage.py', 'file_storage2.py', 'sqlite_storage.py'], ['counter of committed bytes', 'incremental packer driven by idle rounds'], [('packer', 'the pack under way'), ('bytes_since_pack', 'committed since the last collection')])
p('C35', 'A file is opened as what it is, and refused otherwise',
  'A file written by one kind of storage is recognised by its contents and opened as that kind, with everything committed. A file of something else is refused with an error, also when repairing, and not one byte of it changes. A file that does not exist or no name at all gives a new database.',
  ['inputs'], 'all first bytes of a file, all histories and options within the bounds', 'tests open files of the kind they wrote', ['__main__.py', 'shelf.py', 'file_storage2.py'], ['format magic at the start'])
p('C36', 'A server takes, keeps and gives back its address safely',
  'A server takes an address that is free or was left by a server that has gone, with the umask, owner and group asked for, and leaves the umask of the process as it was, also if it fails. It never takes an address that another server serves, and never removes a file with contents. When it ends, however that happens, the address is free again, and a server stopped by request has kept every commit. Sockets are inherited exactly if the environment names this process and one socket.',
  ['inputs', 'histories', 'environments'], 'all states of the address, umasks, owners, environments and ends within the bounds', 'tests start servers on free addresses', ['storage_server.py', 'systemd_socket.py', '__main__.py'], ['stale socket told apart by a connection attempt'])
p('C37', 'A copy of a database is the same database',
  'Copying all records, or those reachable, from any kind of storage into an empty storage of another kind gives a storage with exactly these records, at once and when opened again, that hands out only identifiers not in use and goes on working. Renumbering a database gives one with the same objects, values and references, shared and cyclic ones too, and leaves the old file as it was.',
  ['inputs', 'histories'], 'all graphs, contents and histories within the bounds, all pairs of storages', 'no test copies a database', ['file_storage2.py', 'sqlite_storage.py', 'storage.py'], ['index rebuilt from the records written'])
p('C38', 'Every record that mentions a renamed class can be rewritten',
  'Marking all references to a name marks exactly the objects whose class or state mentions it, in whatever storage, loaded or not. After the next commit no record mentions the old class name any more, every other record is unchanged, and the database opens without the old name with the same objects, values and references.',
  ['inputs', 'histories'], 'all object graphs, classes and words within the bounds', 'tests touch one object', ['connection.py', 'serialize.py'], ['search in the pickles'])
p('C39', 'The command line does what its options say',
  'The server command serves the given file, as the kind it is or the class asked for, at the given address, with the given collection limit, read only or after a repair exactly if asked for; it refuses a file with an incomplete end otherwise and never changes a file it refuses. With the stop option it stops the server at that address and opens nothing. The pack command removes what is unreachable, and only that, from the file or through the server. The client command gives its console the root, the connection and the cache size asked for, executes the startup file first, and writes nothing by itself.',
  ['inputs', 'environments'], 'all combinations of the options from short lists of values, all records, and all lengths of a missing end within the bounds', 'no test calls the command line', ['__main__.py', 'storage_server.py', 'shelf.py', 'file_storage2.py'], ['one program with three commands that share options'])
p('C40', 'The cache is kept near its target size',
  'The target size is what was asked for; a size below one is refused. While the cache holds no more than its target, nothing is evicted. Otherwise shrinking it, which the end of every transaction does, evicts saved objects not used in the current transaction, those used least recently first, and repeated it goes on until the cache fits or only objects in use are loaded. Objects that nothing refers to any more leave the cache, so that a program that walks through a database needs memory for the target size only.',
  ['configurations', 'programs'], 'all sizes, times of last use, kept and changed objects within the bounds', 'tests use two sizes and one access pattern', ['connection.py', 'persistent.py'], ['heap by time of last use, a finger that goes round'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
