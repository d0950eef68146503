"""Records the fix commits of /repo in known_findings.json (run by hand after adding one)"""
import json
import subprocess

PROPS = {
 'Entry.index and Entry.reindex': 'C06', 'HistoryEntry.attachments': 'C09', 'delete_binary with a negative': 'C08', 'delete_binary also removes': 'C08', 'delete_binary renumbers': 'C08',
 'find_attachments without criteria': 'C07', 'search values and property names': 'C07', 'compare UUIDs': 'C07', 'a rejected value': 'C14', 'rejected text': 'C14', 'wrong arguments': 'C14',
 'a failing read': 'C14', 'add_entry accepts None': 'C10', 'save uses a temporary': 'C02', 'a database opened with a transformed': 'C03', 'create_database saves': 'C18', 'databases with large': 'C01',
 'check the KDBX4 header': 'C04', 'KDBX3 blocks': 'C04', 'verify the header hash': 'C04', 'opening a database of an unsupported': 'C04', 'KDBX3 binaries may': 'C05', 'protected binaries': 'C05',
 'kdf_algorithm and': 'C19', 'paths through': 'C07', 'times with a UTC': 'C11', 'deref of empty': 'C12', 'appending a list': 'C14', 'key files of 64': 'C21', 'key files given as': 'C21',
 'elements with different UUIDs': 'C23', 'searches and attachments give': 'C23',
 'saving a database that is not': 'C19', 'dump_xml of': 'C19', 'a refused change': 'C19',
}
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '--grep=^fix:'], capture_output=True, text=True).stdout
out = []
for line in log.splitlines():
    h, s = line.split(' ', 1)
    s = s[len('fix: '):]
    p = [v for k, v in PROPS.items() if s.startswith(k)]
    assert len(p) == 1, line
    out.append('fixed: property=%s %s %s' % (p[0], h, s))
path = 'known_findings.json'
d = json.load(open(path))
d['fixed'] = out
json.dump(d, open(path, 'w'), indent=1)
print(len(out))
