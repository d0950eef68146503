"""Generates properties.jsonl (kept as a generator so that the long texts stay readable)."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=list(state), mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


K = 'pykeepass/pykeepass.py'
EN = 'pykeepass/entry.py'
GR = 'pykeepass/group.py'
BE = 'pykeepass/baseelement.py'
AT = 'pykeepass/attachment.py'
XP = 'pykeepass/xpath.py'
CO = 'pykeepass/kdbx_parsing/common.py'
K3 = 'pykeepass/kdbx_parsing/kdbx3.py'
K4 = 'pykeepass/kdbx_parsing/kdbx4.py'
KX = 'pykeepass/kdbx_parsing/kdbx.py'
TF = 'pykeepass/kdbx_parsing/pytwofish.py'
TW = 'pykeepass/kdbx_parsing/twofish.py'

prop('C01', 'Saving and reopening a database is lossless',
     'Whatever a user stores through the API (groups, entries, every text field, custom properties, tags, icons, times, '
     'autotype settings, attachments with their data, history, database name/description/default user) is read back '
     'identically after saving the database to a path or stream and opening it again with the same credentials; absent and '
     'empty text count as the same. This holds for every format version, cipher, compression setting, key derivation '
     'function and inner stream the library supports, and for content of any size (group nesting to 1000 levels) and any text the document format can '
     'represent. Saving and reopening again changes nothing further.',
     ['inputs', 'configurations', 'histories'],
     'all supported format configurations x all values of every stored attribute x all content sizes x repeated generations',
     'test_open_save opens 15 sample files and re-opens the saved result without comparing content; no test varies field '
     'content, payload size (block and padding boundaries) or number of values across configurations.',
     [K, EN, GR, BE, CO, K3, K4, KX, TW, TF],
     [('construct description of the file used for both directions', KX), ('Concatenated / DecryptedPayload / Decompressed adapters', CO),
      ('UnprotectedStream encrypts a copy of the tree', CO)], ['API view after reopening', 'saved bytes'])

prop('C02', 'A failing or interrupted save never damages the stored database',
     'When saving to a path is cut short at any point - the process dies before, after or in the middle of any file-system '
     'operation, or any one file-system call fails, or building the file raises - the target path afterwards holds either the '
     'complete previous database or the complete new one (if it did not exist before, it may also not exist). A save '
     'that raises has no other effect on the directory, and a successful save changes the target file only: no other file that '
     'was present is ever modified, replaced or removed, whatever the file names are.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'every file-system call of a save x {die before, die after, die with a prefix of the bytes written, fail, short write} x '
     'file names/neighbouring files x causes of build failure',
     'test_issue223 provokes one build failure (missing key file) and reopens the file; no test injects a crash or an I/O error '
     'or looks at neighbouring files.',
     [K], [('write to temporary file, then move over the target', K + ' save()'), ('remove temporary file on error', K + ' save()')],
     ['directory contents after the save'])

prop('C03', 'Only the credentials a database was saved with open it',
     'A database can be opened with the exact credentials (password, key file, both, neither, or the transformed key derived '
     'from them) it was last saved with, and every different credential set is rejected with CredentialsError and gives access to no '
     'content. Changing the password or key file takes effect with the next save, after which the new credentials open the '
     'file and the old ones do not; a save without such a change keeps the file openable with the credentials used before, '
     'including after opening it with a transformed key. Reloading uses the credentials of the open database.',
     ['inputs', 'histories', 'configurations'],
     'all pairs of credential sets from an alphabet of passwords and key files x formats; all sequences of credential changes, saves, '
     'failed and successful opens up to a bound',
     'test_open_error tries six wrong combinations; test_set_credentials (one change) is shadowed and never runs; no test checks that '
     'old credentials stop working, or saves after opening with a transformed key.',
     [K, CO, K3, K4], [('compute_key_composite / compute_transformed', CO), ('cred_check', K4 + ', ' + K3), ('password/keyfile setters', K)],
     ['outcome of opening', 'which credentials an independent decoder accepts'])

prop('C04', 'Damaged or tampered files are never read as different data',
     'If any part of a saved database file is changed, cut off, reordered, duplicated or removed, opening it with the right '
     'credentials either raises an error or still gives exactly the content that was saved; it never gives different content '
     'and terminates promptly (format 3 cannot authenticate its number of key-derivation rounds before using it). Damage confined to payload data is '
     'reported as PayloadChecksumError, a wrong file signature or an unsupported version as HeaderChecksumError, and damage to a header value that leaves the header '
     'readable as HeaderChecksumError (format 4: every such value, before any key is derived from it; format 3, when the file carries a header hash: every value not '
     'needed to decrypt).',
     ['inputs', 'configurations'],
     'every single-bit change, every truncation, every block-level rearrangement of small files in every format/cipher/compression configuration',
     'No test damages a file; HeaderChecksumError is exercised once (not a KeePass file) and PayloadChecksumError never.',
     [K, KX, K3, K4, CO], [('header SHA-256 and HMAC', K4), ('per-block HMAC / SHA-256 and block index', K4 + ', ' + K3),
                           ('mapping of parse failures to exceptions', K + ' read()')], ['exception type', 'content after opening'])

prop('C05', 'Files interoperate with independent KDBX implementations',
     'Every file the library writes is a well-formed KDBX 3.1 or 4.0 file that an independent implementation decodes, with the same '
     'credentials, to the same content. Every well-formed file of another implementation - any legal block partition, '
     'header item order, optional header items, key-derivation parameters, inner header layout, cipher, compression and inner stream - '
     'opens and shows the content that implementation stored.',
     ['inputs', 'configurations'],
     'all combinations of the listed format freedoms within the bounds, both directions',
     'The tests only read 15 files from two producers and re-read what the library itself wrote, so a symmetrical error in reading and '
     'writing is invisible.',
     [KX, K3, K4, CO, TW, TF], [('construct structs', K3 + ', ' + K4), ('ciphers, stream ciphers, KDF', CO)], ['saved bytes', 'API view'])

prop('C06', 'Adding, moving, deleting and reordering keeps a faithful tree',
     'After any sequence of adding, moving, deleting, emptying, renaming and reindexing groups and entries, the database '
     'contains exactly the groups and entries implied by that sequence, each in exactly one place, in the implied order, with '
     'its fields, history and subtree untouched by operations on other elements. Parent, path, index, listing and handle views all agree with that tree, '
     'identifiers are unique and stable, and an impossible request (duplicate entry, moving a group into its own subtree) '
     'is refused without changing anything.',
     ['histories'], 'all operation sequences up to the bound over small trees, including save/reload between operations',
     'The tests perform about a dozen fixed sequences of two or three operations on one tree shape.',
     [K, EN, GR, BE], [('lxml append moves elements', GR + ' append'), ('reindex/index', EN), ('path/parentgroup', BE + ', ' + EN + ', ' + GR)],
     ['kp.groups/entries', 'group.entries/subgroups', 'entry.path/index/group'])

prop('C07', 'Searches return exactly the matching elements',
     'find_entries, find_groups and find_attachments return exactly the elements of the searched scope that satisfy every given '
     'criterion - equality for plain criteria (whatever characters the text contains), regular-expression search with flags '
     'when requested; for tags, the tag text contains every given tag - each once, and with first the first of them or None. Elements in history are included only '
     'on request, group and recursive limit the scope, a path finds the element reached by following those names, and listing '
     'properties give everything.',
     ['inputs', 'histories'], 'all queries from an alphabet of criteria, values, scopes and switches x all databases from an alphabet of small databases',
     'The tests run some 40 fixed queries on one database; no value contains a character special to the query language.',
     [K, XP, 'pykeepass/deprecated.py'], [('translation of criteria into XPath', K + ' _find'), ('XPath templates', XP)], ['search results'])

prop('C08', 'Attachments always refer to the binary they were attached to',
     'After any sequence of adding and deleting binaries, adding and deleting attachments, saving history and saving/reloading, '
     'every remaining attachment (of current and of history entries) yields exactly the data of the binary it was attached to, '
     'and the binaries are exactly those added and not deleted, in order, with ids equal to their positions. Deleting a binary removes '
     'exactly the attachments that refer to it; requesting or deleting a non-existent binary raises BinaryError and changes nothing. '
     'The saved file is consistent in the same way for other programs.',
     ['histories', 'inputs'], 'all operation sequences up to the bound from several start states, both format versions',
     'The tests delete one binary and look at one following reference; history entries, several entries sharing a binary, ids of two digits and '
     'the ids stored in format-3 files are not looked at.',
     [K, AT, EN], [('delete_binary removes and renumbers references', K), ('binaries property', K)], ['attachment.data', 'kp.binaries', 'saved file'])

prop('C09', 'History entries are faithful, immutable snapshots',
     'Saving history appends exactly one snapshot equal to the state of the entry at that moment (fields, custom properties, protection, '
     'tags, times, attachments, icon), without nested history; no later operation on the entry or on '
     'anything else alters, reorders or drops earlier snapshots, except explicit history deletion, which removes exactly the chosen '
     'ones. The entry itself is unchanged by saving history, snapshots never appear among ordinary entries, and all of this survives save and reload.',
     ['histories'], 'all sequences of edits, history saves/deletions, moves and reloads up to the bound',
     'One test runs one scripted sequence with two snapshots.',
     [EN, K], [('deep copy in save_history', EN), ('not(ancestor::History) filter', K)], ['entry.history', 'find_entries(history=...)'])

prop('C10', 'Attribute writes are exact and affect nothing else',
     'After setting any attribute of an entry, group or database to a representable value, reading it gives that value and every '
     'other attribute of that and every other element is unchanged; the last write wins, deleting a custom property removes only '
     'it, and values are taken literally whatever characters they or the property name contain. The arguments given when '
     'creating an entry or group are its attributes afterwards.',
     ['inputs', 'histories'], 'all attributes x all values of the alphabet (including XML- and query-special text) x all sequences of writes up to the bound',
     'The tests set each attribute once or twice to plain ASCII words and read back the same attribute only.',
     [EN, GR, BE, K], [('_set_string_field / _set_subelement_text', EN + ', ' + BE)], ['attribute getters'])

prop('C11', 'Times denote the same instant everywhere',
     'Any time zone aware instant assigned to a creation, modification, access, expiry or credential-change time reads back as the same instant in UTC '
     '(to the precision of one second), immediately and after save and reload, in both formats; naive expiry times given on creation are local time, '
     'and time stamps stored by other programs, ISO text with any UTC offset included, are read as the instant they denote. '
     'An element is expired exactly when it is marked as expiring and its expiry instant has passed; credential change is due exactly when more than '
     'the configured number of whole days has passed; touch changes only the times it promises to change.',
     ['inputs', 'configurations'], 'instants at calendar and representation boundaries x UTC offsets x time attributes x formats',
     'The tests use the current time with three offsets on creation only.',
     [BE, K], [('_encode_time / _decode_time', K), ('expired, touch', BE), ('credchange_required', K)], ['time getters', 'saved file'])

prop('C12', 'Field references resolve to the referenced field',
     'Dereferencing replaces every field reference in a value by the referenced field of the entry it names (found by any of the six fields), '
     'following references in the result, and leaves all other text untouched; a value without references is returned as is and an '
     'unresolvable reference gives None. A reference created for an entry resolves to that entry\'s current value, and '
     'dereferencing always terminates with a result, also for references that form a cycle (which count as unresolvable) or name an empty field.',
     ['inputs'], 'all reference graphs on up to three entries from the alphabet of field contents',
     'One chain and one broken reference are tested.',
     [K, EN], [('deref', K), ('ref', EN)], ['deref result'])

prop('C13', 'The recycle bin never loses or duplicates anything',
     'Trashing an entry or group moves exactly it, complete, into the one recycle bin, which is created and registered if '
     'there is none (also after the old one was deleted) and otherwise reused, wherever it was moved and whatever it is called; the '
     'root group and the recycle bin itself are refused, and emptying a group removes exactly its content. All this survives save and reload.',
     ['histories'], 'all sequences of trash/delete/move/empty/rename/add/reload operations up to the bound',
     'Four tests trash one fresh entry or group each.',
     [K], [('_create_or_get_recyclebin_group', K), ('_can_be_moved_to_recyclebin', K)], ['kp.recyclebin_group', 'tree'])

prop('C14', 'Operations that fail leave the database as it was',
     'An API call that raises - because of text that cannot be stored, a duplicate, an impossible move, a missing binary or key file, '
     'wrong credentials, an unreadable or damaged file, or a wrong argument type - leaves the open database exactly as it was '
     'before the call: content, credentials, file name and the result of the next successful save.',
     ['inputs', 'histories', 'fault_sequences'], 'all failing calls of the catalogue in all states of the catalogue, alone and in pairs',
     'The tests check that some calls raise, never what the database looks like afterwards.',
     [K, EN, BE, GR], [('construct replacement before removing', EN + ', ' + BE), ('assign only after parsing', K + ' read()')], ['API view', 'saved file'])

prop('C15', 'Databases open at the same time do not influence each other',
     'Operations on different database objects in one process - interleaved in any order, or running in different threads - have the same results as if each '
     'database were used alone, and an open or reload always reflects the current files (database and key file), never an earlier version of them.',
     ['schedules', 'histories'], 'all interleavings of short operation sequences on two databases; all thread schedules of open/save with a bounded number of preemptions',
     'Every test works on one database at a time in one thread.',
     [K, CO, K3, K4, TW], [('no shared mutable state in module-level format descriptions', CO)], ['results of each database'])

prop('C16', 'Reading, searching, exporting and saving do not alter the open database',
     'No read access - attributes, listings, searches, dereferencing, string representation, XML export - and no save, successful or not, changes anything that '
     'any later access or save shows, and repeating an access gives the same answer.',
     ['histories', 'inputs'], 'all read operations and all ordered pairs of them on all catalogue databases and formats',
     'One regression test checks one password after one save.',
     [K, EN, GR, BE, AT, CO], [('protected values are encrypted on a copy', CO)], ['document before/after', 'saved file before/after'])

prop('C17', 'Protected values stay protected in the file',
     'Passwords and one-time-password fields created through the API, custom properties set as protected, and everything already protected in an opened file are stored in '
     'every saved file only encrypted with the inner stream cipher, also in history, after edits, moves and attachment changes; the protection mark '
     'changes only when the user sets it, and no stored secret appears in clear text anywhere in the file.',
     ['histories', 'configurations'], 'all sequences of edits up to the bound x formats/ciphers/inner streams',
     'Tests look at the protection flag of four fields in memory, never at the file.',
     [EN, CO], [('Protected attribute handling', EN + ' _set_string_field'), ('UnprotectedStream', CO)], ['decrypted payload of saved file'])

prop('C18', 'A newly created database is empty and has the requested credentials',
     'create_database gives an empty database with the requested password and/or key file, stored complete at the requested path or stream and '
     'openable with exactly those credentials (or the given transformed key); it is independent of every other created '
     'database and never alters the shipped template or any other file.',
     ['inputs', 'histories'], 'all combinations of target kind, password, key file and transformed key from the alphabet, and pairs of creations',
     'create_database is not tested at all.',
     [K], [('create_database', K)], ['created file', 'returned object'])

prop('C19', 'Header-only opening reveals the header and nothing else',
     'With decrypt=False a database opens without valid credentials, reports version, cipher, key derivation function and salt correctly '
     'for every configuration, refuses access to content, and cannot overwrite the stored database with anything.',
     ['inputs', 'configurations'], 'all format configurations x credentials x content accessors',
     'One test reads two header values of two files.',
     [K, K3, K4], [('If(decrypt)', K3 + ', ' + K4), ('payload property', K)], ['header properties', 'exceptions', 'file'])

prop('C20', 'Content the library does not understand is preserved',
     'Opening a database written by another program and saving it, with or without edits to other elements, keeps everything the library does not '
     'interpret: unknown XML elements and attributes at any place, custom data, custom icons, deleted-object records, unknown time stamps, order of elements, public header items, '
     'comments, key-derivation parameters, cipher, compression and inner stream settings, and binary flags.',
     ['inputs', 'histories'], 'unknown elements/attributes at every position of the document x header items x formats x edits',
     'extra_content.kdbx is never opened by a test; no test compares documents across a save.',
     [K, KX, K3, K4, CO], [('whole document kept as lxml tree', CO), ('header kept as raw copy', KX)], ['document of the saved file'])

prop('C21', 'Key files of every kind are interpreted as KeePass does',
     'A key file contributes to the key exactly as KeePass defines it: the data of a version 1 or (hash-checked) version 2 XML key file, the 32 bytes of a 32-byte file, the 32 bytes '
     'denoted by a file of exactly 64 hexadecimal digits, and the SHA-256 of any other file; path, path-like and file-like key files '
     'are equivalent, wherever a stream is positioned and however often it is used.',
     ['inputs'], 'all file lengths up to the bound x content classes x ways of passing the key file',
     'Five key files are tested.',
     [CO], [('compute_key_composite', CO)], ['transformed key', 'whether an independently written file opens'])

prop('C22', 'The XML export is the complete content in plain form',
     'xml() and dump_xml() give, after any sequence of operations and before and after any save, one well-formed XML document with exactly the content of the open database: every group, entry, snapshot, field, '
     'property, protection mark, time, icon, attachment reference and database setting, protected values in clear text and every text character for character; the file written by dump_xml contains nothing else, whatever was there before, '
     'and dump_xml of a group, entry or snapshot gives exactly that element with everything in it.',
     ['histories', 'inputs'], 'all histories to the depth bound; every attribute x every text; documents in every serialisation style; large documents',
     'One test checks that a file appears.',
     [K, 'pykeepass/baseelement.py', CO], [('xml, dump_xml', K), ('dump_xml', 'pykeepass/baseelement.py'), ('Unprotect/ProtectedStream (decrypted document in memory)', CO)], ['exported bytes', 'exported file'])

prop('C23', 'Handles of one element are equal, handles of different elements differ',
     'However a group, entry or snapshot is reached - traversal, listing, search, parent or attachment link, a handle kept across operations - all its handles compare equal and hash alike, and handles of different elements (whatever their '
     'identifiers, also when they agree in every attribute) compare different, a snapshot and its entry included; two snapshots of one entry count as different when their modification times differ. Comparison with other objects is False and never raises. String forms always exist, name the '
     'element (path and title or name, user name; file name and id) and never show the password.',
     ['histories', 'inputs'], 'all pairs of handles in every state to the depth bound; all pairs of identifiers of a set with hash collisions; every text in names',
     'Two tests compare a few entries.',
     ['pykeepass/baseelement.py', 'pykeepass/entry.py', 'pykeepass/group.py', 'pykeepass/attachment.py', K], [('__eq__, __hash__', 'pykeepass/baseelement.py'), ('HistoryEntry', 'pykeepass/entry.py'), ('xpath cast', K)], ['==, !=, hash, sets', 'str, repr'])

prop('C24', 'No file is left open and the caller\'s streams stay usable',
     'Every file the library opens itself (database, key file, temporary file, export, template) is closed again when the call returns or raises, wherever the call fails; streams passed by the caller, '
     'as database, key file or save target, are never closed, and those that are only read are not changed.',
     ['inputs', 'faults'], 'every call that touches a file x kinds of source, target and key file x outcome; failure of every function call in between',
     'No test looks at descriptors.',
     [K, CO, KX], [('save, read, dump_xml', K), ('compute_key_composite', CO)], ['/proc/self/fd', 'stream.closed', 'stream content'])

with open('properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
