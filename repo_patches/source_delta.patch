From 3cba653e25ec8db8143876a366a90c34cb74b5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:51 +0000
Subject: [PATCH 01/35] fix: Entry.index and Entry.reindex count entries only

Groups or other elements interleaved with the entries of a group (as written
by other programs, or after adding a group and then an entry, or renaming a
group) were counted as well, giving wrong indexes and positions.
---
 pykeepass/entry.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 3ef7e4e..69d423c 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -133,10 +133,7 @@ class Entry(BaseElement):
     def index(self):
         """`int`: index of a entry within a group"""
         group = self.group._element
-        children = group.getchildren()
-        first_index = self.group._first_entry
-        index = children.index(self._element)
-        return index - first_index
+        return group.findall('Entry').index(self._element)
 
     def reindex(self, new_index):
         """Move entry to a new index within a group
@@ -145,9 +142,13 @@ class Entry(BaseElement):
             new_index (`int`): new index for the entry starting at 0
         """
         group = self.group._element
-        first_index = self.group._first_entry
         group.remove(self._element)
-        group.insert(new_index+first_index, self._element)
+        # only count entries, other elements may be interleaved with them
+        following = group.findall('Entry')[new_index:]
+        if following:
+            following[0].addprevious(self._element)
+        else:
+            group.append(self._element)
 
     @property
     def attachments(self):
-- 
2.43.0


From a80c07cea87c5d98b0fb78774481ad9daf4350a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:19 +0000
Subject: [PATCH 02/35] fix: HistoryEntry.attachments was always empty

The search for the attachments of an entry excluded elements under History,
also when the entry itself is a history entry.
---
 pykeepass/entry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 69d423c..a146c5d 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -157,7 +157,8 @@ class Entry(BaseElement):
             element=self,
             filename='.*',
             regex=True,
-            recursive=False
+            recursive=False,
+            history=True
         )
 
     def add_attachment(self, id, filename):
-- 
2.43.0


From 5656136694644377e1b02b2e1248e85910282c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:19 +0000
Subject: [PATCH 03/35] fix: delete_binary with a negative id raises
 BinaryError

It removed a binary counted from the end and decremented every reference.
---
 pykeepass/pykeepass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index ec8b506..f709b49 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -849,6 +849,9 @@ class PyKeePass:
         Raises:
             `IndexError`: raised when binary with given ID does not exist
         """
+        # a negative index would remove a binary counted from the end
+        if id < 0:
+            raise BinaryError('No such binary with id {}'.format(id))
         try:
             if self.version >= (4, 0):
                 # remove binary element from inner header
-- 
2.43.0


From 60a7ec6b2b7dce31b1ab7f44b05e2753ae85eec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:19 +0000
Subject: [PATCH 04/35] fix: delete_binary also removes references from history
 entries

References to the deleted binary in history entries were kept and from then
on pointed to another binary.
---
 pykeepass/pykeepass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index f709b49..db2bc29 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -864,7 +864,7 @@ class PyKeePass:
             raise BinaryError('No such binary with id {}'.format(id))
 
         # remove all entry references to this attachment
-        for reference in self.find_attachments(id=id):
+        for reference in self.find_attachments(id=id, history=True):
             reference.delete()
 
         # decrement references greater than this id
-- 
2.43.0


From 0e57d8e70a3ac30ae19a3719014a9c76e7a7aa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:19 +0000
Subject: [PATCH 05/35] fix: delete_binary renumbers the remaining KDBX3
 binaries

The references were decremented, but the IDs stored with the binaries were
not, so other programs found other data, and a binary added later got an ID
that was already in use.
---
 pykeepass/pykeepass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index db2bc29..f4c162b 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -860,6 +860,9 @@ class PyKeePass:
                 # remove binary element from XML
                 binaries = self._xpath('/KeePassFile/Meta/Binaries', first=True)
                 binaries.remove(binaries.getchildren()[id])
+                # IDs are positions, see `binaries`
+                for position, binary in enumerate(binaries.findall('Binary')):
+                    binary.set('ID', str(position))
         except IndexError:
             raise BinaryError('No such binary with id {}'.format(id))
 
-- 
2.43.0


From 8bdd6282c091ffbfe4bd6edfc6dc45184b34cf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:19 +0000
Subject: [PATCH 06/35] fix: find_attachments without criteria on KDBX3

It tried to return the binaries in Meta/Binaries as attachments and raised.
---
 pykeepass/pykeepass.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index f4c162b..29eb630 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -758,6 +758,8 @@ class PyKeePass:
         """
 
         prefix = '//Binary' if recursive else '/Binary'
+        # do not match the binaries themselves, which KDBX3 keeps in the XML
+        prefix += '[parent::Entry]'
         res = self._find(prefix, attachment_xp, path=path, tree=element, **kwargs)
 
         return res
-- 
2.43.0


From 0196e151288e144f2ae2e01a367f4c388cf4097f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:09 +0000
Subject: [PATCH 07/35] fix: search values and property names may contain
 quotes

Values were pasted into XPath expressions between double quotes, so that
values with double quotes raised XPathEvalError or matched something else, in
find_*, add_entry and the custom property methods.
---
 pykeepass/entry.py     | 11 ++++++-----
 pykeepass/pykeepass.py | 18 ++++++++++--------
 pykeepass/xpath.py     | 18 ++++++++++++++++++
 3 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index a146c5d..eb45cf4 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -7,6 +7,7 @@ from lxml.objectify import ObjectifiedElement
 
 from . import attachment
 from .baseelement import BaseElement
+from .xpath import fill
 
 logger = logging.getLogger(__name__)
 reserved_keys = [
@@ -88,7 +89,7 @@ class Entry(BaseElement):
             `str` or `None`: field value
         """
 
-        field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), history=True, first=True)
+        field = self._xpath(fill('String/Key[text()="{}"]/../Value', key), history=True, first=True)
         if field is not None:
             return field.text
 
@@ -104,11 +105,11 @@ class Entry(BaseElement):
 
         Note: pykeepass does not support memory protection
         """
-        field = self._xpath('String/Key[text()="{}"]/..'.format(key), history=True, first=True)
+        field = self._xpath(fill('String/Key[text()="{}"]/..', key), history=True, first=True)
 
         protected_str = None
         if protected is None:
-            protected_field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), first=True)
+            protected_field = self._xpath(fill('String/Key[text()="{}"]/../Value', key), first=True)
             if protected_field is not None:
                 protected_str = protected_field.attrib.get("Protected")
         else:
@@ -356,7 +357,7 @@ class Entry(BaseElement):
     def delete_custom_property(self, key):
         if key not in self._get_string_field_keys(exclude_reserved=True):
             raise AttributeError('No such key: {}'.format(key))
-        prop = self._xpath('String/Key[text()="{}"]/..'.format(key), first=True)
+        prop = self._xpath(fill('String/Key[text()="{}"]/..', key), first=True)
         if prop is None:
             raise AttributeError('Could not find property element')
         self._element.remove(prop)
@@ -379,7 +380,7 @@ class Entry(BaseElement):
 
     def _is_property_protected(self, key):
         """Whether a property is protected."""
-        field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), first=True)
+        field = self._xpath(fill('String/Key[text()="{}"]/../Value', key), first=True)
         if field is not None:
             return field.attrib.get("Protected", "False") == "True"
         return False
diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 29eb630..303b3c2 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -26,7 +26,7 @@ from .exceptions import (
 )
 from .group import Group
 from .kdbx_parsing import KDBX, kdf_uuids
-from .xpath import attachment_xp, entry_xp, group_xp, path_xp
+from .xpath import attachment_xp, entry_xp, fill, group_xp, literal, path_xp
 
 logger = logging.getLogger(__name__)
 
@@ -393,11 +393,11 @@ class PyKeePass:
             element = path[-1] if len(path) > 0 else ''
             # build xpath from group_path and element
             for group in group_path:
-                xp += path_xp[regex]['group'].format(group, flags=flags)
+                xp += fill(path_xp[regex]['group'], group, flags=flags)
             if 'Entry' in prefix:
-                xp += path_xp[regex]['entry'].format(element, flags=flags)
+                xp += fill(path_xp[regex]['entry'], element, flags=flags)
             elif element and 'Group' in prefix:
-                xp += path_xp[regex]['group'].format(element, flags=flags)
+                xp += fill(path_xp[regex]['group'], element, flags=flags)
 
         else:
             if tree is not None:
@@ -408,7 +408,7 @@ class PyKeePass:
             # handle searching custom string fields
             if 'string' in kwargs:
                 for key, value in kwargs['string'].items():
-                    xp += keys_xp[regex]['string'].format(key, value, flags=flags)
+                    xp += fill(keys_xp[regex]['string'], key, value, flags=flags)
 
                 kwargs.pop('string')
 
@@ -419,14 +419,16 @@ class PyKeePass:
             # convert tags to semicolon separated string before building xpath
             # FIXME: this isn't a reliable way to search tags.  e.g. searching ['tag1', 'tag2'] will match 'tag1tag2
             if 'tags' in kwargs:
-                kwargs['tags'] = ' and '.join(f'contains(text(),"{t}")' for t in kwargs['tags'])
+                kwargs['tags'] = ' and '.join(f'contains(text(),{literal(t)})' for t in kwargs['tags'])
 
             # build xpath to filter results with specified attributes
             for key, value in kwargs.items():
                 if key not in keys_xp[regex]:
                     raise TypeError('Invalid keyword argument "{}"'.format(key))
-                if value is not None:
-                    xp += keys_xp[regex][key].format(value, flags=flags)
+                if key == 'tags':
+                    xp += keys_xp[regex][key].format(value)
+                elif value is not None:
+                    xp += fill(keys_xp[regex][key], value, flags=flags)
 
         res = self._xpath(
             xp,
diff --git a/pykeepass/xpath.py b/pykeepass/xpath.py
index e07d312..23b7fb2 100644
--- a/pykeepass/xpath.py
+++ b/pykeepass/xpath.py
@@ -1,3 +1,21 @@
+def literal(value):
+    """Write a value as XPath string literal.  XPath has no escape characters, so
+    a value containing both kinds of quotes has to be concatenated from pieces."""
+    value = str(value)
+    if '"' not in value:
+        return '"{}"'.format(value)
+    if "'" not in value:
+        return "'{}'".format(value)
+    return 'concat({})'.format(
+        ", '\"', ".join('"{}"'.format(piece) for piece in value.split('"'))
+    )
+
+def fill(template, *values, flags=None):
+    """Fill in the values of an XPath template, where quoted placeholders stand
+    for string literals"""
+    template = template.replace('"{}"', '{}').replace('"{flags}"', '{flags}')
+    return template.format(*(literal(v) for v in values), flags=literal(flags))
+
 attachment_xp = {
     False: {
         'id': '/Value[@Ref="{}"]/..',
-- 
2.43.0


From b5362d5c297446d7a8384a3ff5640980ff50cbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:09 +0000
Subject: [PATCH 08/35] fix: compare UUIDs and attachment ids exactly in regex
 searches

Only str arguments are regular expressions.  The base64 form of a UUID did not
match itself if it contained a '+', and id 1 also matched 10.
---
 pykeepass/xpath.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykeepass/xpath.py b/pykeepass/xpath.py
index 23b7fb2..41426ea 100644
--- a/pykeepass/xpath.py
+++ b/pykeepass/xpath.py
@@ -22,7 +22,7 @@ attachment_xp = {
         'filename': '/Key[text()="{}"]/..'
     },
     True: {
-        'id': '/Value[re:test(@Ref, "{}", "{flags}")]/..',
+        'id': '/Value[@Ref="{}"]/..', # not a string
         'filename': '/Key[re:test(text(), "{}", "{flags}")]/..'
     }
 }
@@ -59,7 +59,7 @@ entry_xp = {
         'password': '/String/Key[text()="Password"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
         'url': '/String/Key[text()="URL"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
         'notes': '/String/Key[text()="Notes"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
-        'uuid': '/UUID[re:test(text(), "{}", "{flags}")]/..',
+        'uuid': '/UUID[text()="{}"]/..', # not a string
         'tags': '/Tags[{}]/..', # no regular expression support for tags
         'string': '/String/Key[text()="{}"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
         'autotype_sequence': '/AutoType/DefaultSequence[re:test(text(), "{}", "{flags}")]/../..',
@@ -77,7 +77,7 @@ group_xp = {
     },
     True: {
         'name': '/Name[re:test(text(), "{}", "{flags}")]/..',
-        'uuid': '/UUID[re:test(text(), "{}", "{flags}")]/..',
+        'uuid': '/UUID[text()="{}"]/..', # not a string
         'notes': '/Notes[re:test(text(), "{}", "{flags}")]/..',
     }
 }
-- 
2.43.0


From ed3aafd63ff6a7939a02041088caefe6dbce3598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:19 +0000
Subject: [PATCH 09/35] fix: a rejected value does not remove the old one

Setting a field to text that XML cannot represent, or to a value of a wrong
type, raised after the old field had been removed.
---
 pykeepass/baseelement.py |  4 +++-
 pykeepass/entry.py       | 12 +++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pykeepass/baseelement.py b/pykeepass/baseelement.py
index 048e5cf..1bfb1b7 100644
--- a/pykeepass/baseelement.py
+++ b/pykeepass/baseelement.py
@@ -46,10 +46,12 @@ class BaseElement:
             return v.text
 
     def _set_subelement_text(self, tag, value):
+        # raises if the value cannot be stored, so keep the old one until then
+        new = getattr(E, tag)(value)
         v = self._element.find(tag)
         if v is not None:
             self._element.remove(v)
-        self._element.append(getattr(E, tag)(value))
+        self._element.append(new)
 
     @property
     def group(self):
diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index eb45cf4..cb6fff8 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -115,13 +115,15 @@ class Entry(BaseElement):
         else:
             protected_str = str(protected)
 
-        if field is not None:
-            self._element.remove(field)
-
+        # raises if the value cannot be stored, so keep the old one until then
         if protected_str is None:
-            self._element.append(E.String(E.Key(key), E.Value(value)))
+            new_field = E.String(E.Key(key), E.Value(value))
         else:
-            self._element.append(E.String(E.Key(key), E.Value(value, Protected=protected_str)))
+            new_field = E.String(E.Key(key), E.Value(value, Protected=protected_str))
+
+        if field is not None:
+            self._element.remove(field)
+        self._element.append(new_field)
 
     def _get_string_field_keys(self, exclude_reserved=False):
         results = [x.find('Key').text for x in self._element.findall('String')]
-- 
2.43.0


From b441976c9c12582a0bc97ab7986c5e3a6f4d1755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:19 +0000
Subject: [PATCH 10/35] fix: rejected text does not clear database, autotype
 and attachment texts

lxml removes the old text before it raises.
---
 pykeepass/attachment.py |  3 ++-
 pykeepass/entry.py      |  8 ++++----
 pykeepass/pykeepass.py  | 12 ++++++------
 pykeepass/xpath.py      |  9 +++++++++
 4 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/pykeepass/attachment.py b/pykeepass/attachment.py
index 8006e12..ea295bb 100644
--- a/pykeepass/attachment.py
+++ b/pykeepass/attachment.py
@@ -1,5 +1,6 @@
 from . import entry
 from .exceptions import BinaryError
+from .xpath import set_text
 
 
 class Attachment:
@@ -35,7 +36,7 @@ class Attachment:
 
     @filename.setter
     def filename(self, filename):
-        self._element.find('Key').text = filename
+        set_text(self._element.find('Key'), filename)
 
     @property
     def entry(self):
diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index cb6fff8..a2609d2 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -7,7 +7,7 @@ from lxml.objectify import ObjectifiedElement
 
 from . import attachment
 from .baseelement import BaseElement
-from .xpath import fill
+from .xpath import fill, set_text
 
 logger = logging.getLogger(__name__)
 reserved_keys = [
@@ -296,7 +296,7 @@ class Entry(BaseElement):
     def autotype_enabled(self, value):
         enabled = self._element.find('AutoType/Enabled')
         if value is not None:
-            enabled.text = str(value)
+            set_text(enabled, str(value))
         else:
             enabled.text = None
 
@@ -310,7 +310,7 @@ class Entry(BaseElement):
 
     @autotype_sequence.setter
     def autotype_sequence(self, value):
-        self._element.find('AutoType/DefaultSequence').text = value
+        set_text(self._element.find('AutoType/DefaultSequence'), value)
 
     @property
     def autotype_window(self):
@@ -322,7 +322,7 @@ class Entry(BaseElement):
 
     @autotype_window.setter
     def autotype_window(self, value):
-        self._element.find('AutoType/Association/Window').text = value
+        set_text(self._element.find('AutoType/Association/Window'), value)
 
     @property
     def is_a_history_entry(self):
diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 303b3c2..7a1045e 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -26,7 +26,7 @@ from .exceptions import (
 )
 from .group import Group
 from .kdbx_parsing import KDBX, kdf_uuids
-from .xpath import attachment_xp, entry_xp, fill, group_xp, literal, path_xp
+from .xpath import attachment_xp, entry_xp, fill, group_xp, literal, path_xp, set_text
 
 logger = logging.getLogger(__name__)
 
@@ -276,7 +276,7 @@ class PyKeePass:
     @database_name.setter
     def database_name(self, name):
         item = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)
-        item.text = str(name)
+        set_text(item, str(name))
 
     @property
     def database_description(self):
@@ -287,7 +287,7 @@ class PyKeePass:
     @database_description.setter
     def database_description(self, name):
         item = self._xpath('/KeePassFile/Meta/DatabaseDescription', first=True)
-        item.text = str(name)
+        set_text(item, str(name))
 
     @property
     def default_username(self):
@@ -298,7 +298,7 @@ class PyKeePass:
     @default_username.setter
     def default_username(self, name):
         item = self._xpath('/KeePassFile/Meta/DefaultUserName', first=True)
-        item.text = str(name)
+        set_text(item, str(name))
 
     def xml(self):
         """Get XML part of database as string
@@ -961,13 +961,13 @@ class PyKeePass:
     def credchange_required_days(self, days):
         path = '/KeePassFile/Meta/MasterKeyChangeForce'
         item = self._xpath(path, first=True)
-        item.text = str(days)
+        set_text(item, str(days))
 
     @credchange_recommended_days.setter
     def credchange_recommended_days(self, days):
         path = '/KeePassFile/Meta/MasterKeyChangeRec'
         item = self._xpath(path, first=True)
-        item.text = str(days)
+        set_text(item, str(days))
 
     @property
     def credchange_date(self):
diff --git a/pykeepass/xpath.py b/pykeepass/xpath.py
index 41426ea..91a1f77 100644
--- a/pykeepass/xpath.py
+++ b/pykeepass/xpath.py
@@ -1,3 +1,12 @@
+from lxml.etree import Element
+
+
+def set_text(element, text):
+    """Set the text of an element.  lxml drops the old text before it rejects a
+    text that XML cannot represent, so try on another element first."""
+    Element('text').text = text
+    element.text = text
+
 def literal(value):
     """Write a value as XPath string literal.  XPath has no escape characters, so
     a value containing both kinds of quotes has to be concatenated from pieces."""
-- 
2.43.0


From 85128a70f20808aa93f71ecd8bfbc335fd09e651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:19 +0000
Subject: [PATCH 11/35] fix: wrong arguments of reindex, append and trash_*
 leave the tree alone

reindex lost the entry, append moved the elements before the wrong one and
trash_entry(None) created a recycle bin before they raised.
---
 pykeepass/entry.py     | 3 +--
 pykeepass/group.py     | 4 ++--
 pykeepass/pykeepass.py | 2 +-
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index a2609d2..ed31ccb 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -145,9 +145,8 @@ class Entry(BaseElement):
             new_index (`int`): new index for the entry starting at 0
         """
         group = self.group._element
-        group.remove(self._element)
         # only count entries, other elements may be interleaved with them
-        following = group.findall('Entry')[new_index:]
+        following = [e for e in group.findall('Entry') if e is not self._element][new_index:]
         if following:
             following[0].addprevious(self._element)
         else:
diff --git a/pykeepass/group.py b/pykeepass/group.py
index 46adb7e..2eeeabd 100644
--- a/pykeepass/group.py
+++ b/pykeepass/group.py
@@ -95,8 +95,8 @@ class Group(BaseElement):
         """
         # FIXME: check if `entries` is iterable instead of list
         if isinstance(entries, list):
-            for e in entries:
-                self._element.append(e._element)
+            for element in [e._element for e in entries]:
+                self._element.append(element)
         else:
             self._element.append(entries._element)
 
diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 7a1045e..7f6ddf5 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -443,10 +443,10 @@ class PyKeePass:
     def _can_be_moved_to_recyclebin(self, entry_or_group):
         if entry_or_group == self.root_group:
             return False
+        uuid_str = base64.b64encode( entry_or_group.uuid.bytes).decode('utf-8')
         recyclebin_group = self.recyclebin_group
         if recyclebin_group is None:
             return True
-        uuid_str = base64.b64encode( entry_or_group.uuid.bytes).decode('utf-8')
         elem = self._xpath('./UUID[text()="{}"]/..'.format(uuid_str), tree=recyclebin_group._element, first=True, cast=False)
         return elem is None
 
-- 
2.43.0


From 8b0172f955dc6557b3a0de98ebd4f2c32d739014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:19 +0000
Subject: [PATCH 12/35] fix: a failing read does not change the open database

The credentials and the file name were already those of the failed read, so
that a following save used them.
---
 pykeepass/pykeepass.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 7f6ddf5..6840236 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -87,16 +87,12 @@ class PyKeePass:
         """
 
         # TODO: - raise, no filename provided, database not open
-        self._password = password
-        self._keyfile = keyfile
-        if filename:
-            self.filename = filename
-        else:
+        if not filename:
             filename = self.filename
 
         try:
             if hasattr(filename, "read"):
-                self.kdbx = KDBX.parse_stream(
+                kdbx = KDBX.parse_stream(
                     filename,
                     password=password,
                     keyfile=keyfile,
@@ -104,7 +100,7 @@ class PyKeePass:
                     decrypt=decrypt
                 )
             else:
-                self.kdbx = KDBX.parse_file(
+                kdbx = KDBX.parse_file(
                     filename,
                     password=password,
                     keyfile=keyfile,
@@ -135,6 +131,12 @@ class PyKeePass:
             else:
                 raise
 
+        # everything is fine, from here on this is the open database
+        self.kdbx = kdbx
+        self.filename = filename
+        self._password = password
+        self._keyfile = keyfile
+
     def reload(self):
         """Reload current database using previously given credentials """
 
-- 
2.43.0


From 3586e4676dd5be35f0fe8d72b24c3bae0df7b33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:19 +0000
Subject: [PATCH 13/35] fix: add_entry accepts None for title, username and
 password

as documented.  It raised TypeError, or claimed that the entry exists.
---
 pykeepass/entry.py     | 6 +++---
 pykeepass/pykeepass.py | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index ed31ccb..318aa5e 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -40,10 +40,10 @@ class Entry(BaseElement):
                 expiry_time=expiry_time,
                 icon=icon
             )
-            self._element.append(E.String(E.Key('Title'), E.Value(title)))
-            self._element.append(E.String(E.Key('UserName'), E.Value(username)))
+            self._element.append(E.String(E.Key('Title'), E.Value(title or '')))
+            self._element.append(E.String(E.Key('UserName'), E.Value(username or '')))
             self._element.append(
-                E.String(E.Key('Password'), E.Value(password, Protected="True"))
+                E.String(E.Key('Password'), E.Value(password or '', Protected="True"))
             )
             if url:
                 self._element.append(E.String(E.Key('URL'), E.Value(url)))
diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 6840236..f9978d5 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -680,7 +680,8 @@ class PyKeePass:
             `Group`: newly added group
         """
 
-        entries = self.find_entries(
+        # None would match any title or username
+        entries = title and username and self.find_entries(
             title=title,
             username=username,
             first=True,
-- 
2.43.0


From a07c9e60b2790081fab90e04184aba38d80b97cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:03 +0000
Subject: [PATCH 14/35] fix: save uses a temporary file of its own and replaces
 the target atomically

Saving db.kdbx overwrote and removed an unrelated db.tmp, a database called
x.tmp was written in place and removed when saving failed, and saving to a
directory moved the file into it.  If the temporary file could not be created
or renamed, another error was raised or the target was overwritten in place.
---
 pykeepass/pykeepass.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index f9978d5..fd6ddac 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -2,7 +2,6 @@ import base64
 import logging
 import os
 import re
-import shutil
 import struct
 import uuid
 import zlib
@@ -168,7 +167,8 @@ class PyKeePass:
         else:
             # save to temporary file to prevent database clobbering
             # see issues 223, 101
-            filename_tmp = Path(filename).with_suffix('.tmp')
+            # the name must not be that of any other file in the directory
+            filename_tmp = Path(filename).with_name(uuid.uuid4().hex + '.tmp')
             try:
                 KDBX.build_file(
                     self.kdbx,
@@ -178,10 +178,10 @@ class PyKeePass:
                     transformed_key=transformed_key,
                     decrypt=True
                 )
-            except Exception as e:
-                os.remove(filename_tmp)
+                os.replace(filename_tmp, filename)
+            except BaseException as e:
+                filename_tmp.unlink(missing_ok=True)
                 raise e
-            shutil.move(filename_tmp, filename)
 
     @property
     def version(self):
-- 
2.43.0


From 655010dc492c9049a63ce2109ef2b05a5fc4386f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:00 +0000
Subject: [PATCH 15/35] fix: a database opened with a transformed key keeps it
 for save and reload

---
 pykeepass/pykeepass.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index fd6ddac..7945cac 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -135,11 +135,21 @@ class PyKeePass:
         self.filename = filename
         self._password = password
         self._keyfile = keyfile
+        self._transformed_key = transformed_key
 
     def reload(self):
         """Reload current database using previously given credentials """
 
-        self.read(self.filename, self.password, self.keyfile)
+        self.read(
+            self.filename, self.password, self.keyfile,
+            transformed_key=self._given_transformed_key()
+        )
+
+    def _given_transformed_key(self):
+        """Transformed key the database was opened with, if there are no
+        other credentials"""
+        if self.password is None and self.keyfile is None:
+            return self._transformed_key
 
     def save(self, filename=None, transformed_key=None):
         """Save current database object to disk.
@@ -154,6 +164,8 @@ class PyKeePass:
 
         if not filename:
             filename = self.filename
+        if transformed_key is None:
+            transformed_key = self._given_transformed_key()
 
         if hasattr(filename, "write"):
             KDBX.build_stream(
@@ -934,6 +946,7 @@ class PyKeePass:
     @password.setter
     def password(self, password):
         self._password = password
+        self._transformed_key = None
         self.credchange_date = datetime.now(timezone.utc)
 
     @property
@@ -944,6 +957,7 @@ class PyKeePass:
     @keyfile.setter
     def keyfile(self, keyfile):
         self._keyfile = keyfile
+        self._transformed_key = None
         self.credchange_date = datetime.now(timezone.utc)
 
     @property
-- 
2.43.0


From 30f01aa292dbf53da0138c1ea930674afd227c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:40 +0000
Subject: [PATCH 16/35] fix: create_database saves with the given transformed
 key

---
 pykeepass/pykeepass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 7945cac..cd5534a 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1083,7 +1083,8 @@ def create_database(
     keepass_instance.password = password
     keepass_instance.keyfile = keyfile
 
-    keepass_instance.save(transformed_key)
+    keepass_instance._transformed_key = transformed_key
+    keepass_instance.save(transformed_key=transformed_key)
     return keepass_instance
 
 def debug_setup():
-- 
2.43.0


From 316963e0af709682adb6d3604a02978d4006c978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:06 +0000
Subject: [PATCH 17/35] fix: databases with large texts or deep groups can be
 reopened

---
 pykeepass/kdbx_parsing/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/kdbx_parsing/common.py b/pykeepass/kdbx_parsing/common.py
index 00630ef..319d466 100644
--- a/pykeepass/kdbx_parsing/common.py
+++ b/pykeepass/kdbx_parsing/common.py
@@ -195,7 +195,7 @@ class XML(Adapter):
     """Bytes <---> lxml etree"""
 
     def _decode(self, data, con, path):
-        parser = etree.XMLParser(remove_blank_text=True)
+        parser = etree.XMLParser(remove_blank_text=True, huge_tree=True)
         return etree.parse(io.BytesIO(data), parser)
 
     def _encode(self, tree, con, path):
-- 
2.43.0


From 8ba952fb70216ea6d92265c18666a5cd03ed4f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:36 +0000
Subject: [PATCH 18/35] fix: check the KDBX4 header hash before deriving the
 key from the header

---
 pykeepass/kdbx_parsing/kdbx4.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykeepass/kdbx_parsing/kdbx4.py b/pykeepass/kdbx_parsing/kdbx4.py
index 426d3ac..f2b953d 100644
--- a/pykeepass/kdbx_parsing/kdbx4.py
+++ b/pykeepass/kdbx_parsing/kdbx4.py
@@ -284,14 +284,15 @@ UnpackedPayload = Reparsed(
 # -------------------- Main KDBX Structure --------------------
 
 Body = Struct(
-    "transformed_key" / Computed(compute_transformed),
-    "master_key" / Computed(compute_master),
+    # must be first, a corrupted header must not be used to derive the key
     "sha256" / Checksum(
         Bytes(32),
         lambda data: hashlib.sha256(data).digest(),
         this._.header.data,
         # exception=HeaderChecksumError,
     ),
+    "transformed_key" / Computed(compute_transformed),
+    "master_key" / Computed(compute_master),
     "cred_check" / If(this._._.decrypt,
         Checksum(
             Bytes(32),
-- 
2.43.0


From 9042505fe2baf633529b4c1afd1e9c9d0a7a9e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:36 +0000
Subject: [PATCH 19/35] fix: KDBX3 blocks in wrong order raise
 PayloadChecksumError

---
 pykeepass/pykeepass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index cd5534a..b06dc49 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -124,7 +124,8 @@ class PyKeePass:
                 raise HeaderChecksumError("Corrupted database")
             elif e.path in (
                     '(parsing) -> body -> payload -> hmac_hash', # KDBX4
-                    '(parsing) -> xml -> block_hash' # KDBX3
+                    '(parsing) -> xml -> block_hash', # KDBX3
+                    '(parsing) -> xml -> block_index' # KDBX3
                     ):
                 raise PayloadChecksumError("Error reading database contents")
             else:
-- 
2.43.0


From 3e34022c1888277d680b3a65f4dd1a3f1e628974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:05 +0000
Subject: [PATCH 20/35] fix: verify the header hash of KDBX3 databases

---
 pykeepass/pykeepass.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index b06dc49..33aec7b 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1,4 +1,5 @@
 import base64
+import hashlib
 import logging
 import os
 import re
@@ -131,6 +132,12 @@ class PyKeePass:
             else:
                 raise
 
+        # KDBX3 stores the hash of the header in the payload
+        if decrypt and kdbx.header.value.major_version == 3:
+            header_hash = kdbx.body.payload.xml.findtext('Meta/HeaderHash')
+            if header_hash and base64.b64decode(header_hash) != hashlib.sha256(kdbx.header.data).digest():
+                raise HeaderChecksumError("Corrupted database")
+
         # everything is fine, from here on this is the open database
         self.kdbx = kdbx
         self.filename = filename
-- 
2.43.0


From f34cf72435a684466811547cb2c4d0a6e14df539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:05 +0000
Subject: [PATCH 21/35] fix: opening a database of an unsupported version
 raises

---
 pykeepass/pykeepass.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 33aec7b..78fa4ed 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -132,6 +132,9 @@ class PyKeePass:
             else:
                 raise
 
+        if kdbx.body is None:
+            raise HeaderChecksumError("Unsupported database version")
+
         # KDBX3 stores the hash of the header in the payload
         if decrypt and kdbx.header.value.major_version == 3:
             header_hash = kdbx.body.payload.xml.findtext('Meta/HeaderHash')
-- 
2.43.0


From 1ff3718a7c3b5fcca526126b4a05304980a33229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:06 +0000
Subject: [PATCH 22/35] fix: KDBX3 binaries may be stored in any order

---
 pykeepass/pykeepass.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 78fa4ed..ad5b7ca 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -806,7 +806,9 @@ class PyKeePass:
             binaries = [a.data[1:] for a in self.payload.inner_header.binary]
         else:
             binaries = []
-            for elem in self._xpath('/KeePassFile/Meta/Binaries/Binary'):
+            elems = self._xpath('/KeePassFile/Meta/Binaries/Binary')
+            # elements may be stored in any order
+            for elem in sorted(elems, key=lambda e: int(e.attrib['ID'])):
                 if elem.text is not None:
                     if elem.get('Compressed') == 'True':
                         data = zlib.decompress(
@@ -817,7 +819,7 @@ class PyKeePass:
                         data = base64.b64decode(elem.text)
                 else:
                     data = b''
-                binaries.insert(int(elem.attrib['ID']), data)
+                binaries.append(data)
 
         return binaries
 
@@ -888,10 +890,14 @@ class PyKeePass:
                 self.payload.inner_header.binary.pop(id)
             else:
                 # remove binary element from XML
-                binaries = self._xpath('/KeePassFile/Meta/Binaries', first=True)
-                binaries.remove(binaries.getchildren()[id])
+                binaries = sorted(
+                    self._xpath('/KeePassFile/Meta/Binaries/Binary'),
+                    key=lambda e: int(e.attrib['ID'])
+                )
+                binary = binaries.pop(id)
+                binary.getparent().remove(binary)
                 # IDs are positions, see `binaries`
-                for position, binary in enumerate(binaries.findall('Binary')):
+                for position, binary in enumerate(binaries):
                     binary.set('ID', str(position))
         except IndexError:
             raise BinaryError('No such binary with id {}'.format(id))
-- 
2.43.0


From 4eeb35746edd101d88aaca47b3350782bfc88a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:34 +0000
Subject: [PATCH 23/35] fix: protected binaries of KDBX3 are decrypted and keep
 the inner stream in step

---
 pykeepass/kdbx_parsing/common.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pykeepass/kdbx_parsing/common.py b/pykeepass/kdbx_parsing/common.py
index 319d466..b191e5a 100644
--- a/pykeepass/kdbx_parsing/common.py
+++ b/pykeepass/kdbx_parsing/common.py
@@ -207,7 +207,8 @@ class UnprotectedStream(Adapter):
     Iterate etree for Protected elements and decrypt using cipher
     provided by get_cipher"""
 
-    protected_xpath = '//Value[@Protected=\'True\']'
+    # binaries of KDBX3 may be protected too
+    protected_xpath = '//*[self::Value or self::Binary][@Protected=\'True\']'
 
     def __init__(self, protected_stream_key, subcon):
         super().__init__(subcon)
@@ -218,7 +219,11 @@ class UnprotectedStream(Adapter):
         for elem in tree.xpath(self.protected_xpath):
             if elem.text is not None:
                 try:
-                    result = cipher.decrypt(base64.b64decode(elem.text)).decode('utf-8')
+                    result = cipher.decrypt(base64.b64decode(elem.text))
+                    if elem.tag == 'Binary':
+                        elem.text = base64.b64encode(result)
+                        continue
+                    result = result.decode('utf-8')
                     # strip invalid XML characters - https://stackoverflow.com/questions/8733233
                     result = re.sub(
                         '[^\u0020-\uD7FF\u0009\u000A\u000D\uE000-\uFFFD\U00010000-\U0010FFFF]+',
@@ -238,11 +243,11 @@ class UnprotectedStream(Adapter):
         cipher = self.get_cipher(self.protected_stream_key(con))
         for elem in tree_copy.xpath(self.protected_xpath):
             if elem.text is not None:
-                elem.text = base64.b64encode(
-                    cipher.encrypt(
-                        elem.text.encode('utf-8')
-                    )
-                )
+                if elem.tag == 'Binary':
+                    data = base64.b64decode(elem.text)
+                else:
+                    data = elem.text.encode('utf-8')
+                elem.text = base64.b64encode(cipher.encrypt(data))
         return tree_copy
 
 
-- 
2.43.0


From 51c8efadb7a94da9b1fea60f37a20abd91c34ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:22 +0000
Subject: [PATCH 24/35] fix: kdf_algorithm and database_salt of KDBX 3.0 and
 4.1 databases

---
 pykeepass/pykeepass.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index ad5b7ca..8a9c533 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -225,9 +225,9 @@ class PyKeePass:
     def kdf_algorithm(self):
         """`str`: key derivation algorithm used by database during decryption.
         Can be one of 'aeskdf', 'argon2', or 'argon2id'"""
-        if self.version == (3, 1):
+        if self.version < (4, 0):
             return 'aeskdf'
-        elif self.version == (4, 0):
+        else:
             kdf_parameters = self.kdbx.header.value.dynamic_header.kdf_parameters.data.dict
             if kdf_parameters['$UUID'].value == kdf_uuids['argon2']:
                 return 'argon2'
@@ -247,7 +247,7 @@ class PyKeePass:
        """`bytes`: salt of database kdf. This can be used for adding additional
        credentials which are used in extension to current keyfile."""
 
-       if self.version == (3, 1):
+       if self.version < (4, 0):
             return self.kdbx.header.value.dynamic_header.transform_seed.data
 
        kdf_parameters = self.kdbx.header.value.dynamic_header.kdf_parameters.data.dict
-- 
2.43.0


From a4427ab2ea74a30f51a7def0459fb05629114eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:55 +0000
Subject: [PATCH 25/35] fix: paths through unnamed groups and to untitled
 entries

---
 pykeepass/entry.py     | 3 +--
 pykeepass/group.py     | 3 +--
 pykeepass/pykeepass.py | 8 ++++----
 pykeepass/xpath.py     | 5 +++++
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 318aa5e..6c8ef25 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -342,8 +342,7 @@ class Entry(BaseElement):
         p = self.parentgroup
         path = [self.title]
         while p is not None and not p.is_root_group:
-            if p.name is not None:  # dont make the root group appear
-                path.insert(0, p.name)
+            path.insert(0, p.name)
             p = p.parentgroup
         return path
 
diff --git a/pykeepass/group.py b/pykeepass/group.py
index 2eeeabd..c0c20c6 100644
--- a/pykeepass/group.py
+++ b/pykeepass/group.py
@@ -82,8 +82,7 @@ class Group(BaseElement):
         p = self.parentgroup
         path = [self.name]
         while p is not None and not p.is_root_group:
-            if p.name is not None:  # dont make the root group appear
-                path.insert(0, p.name)
+            path.insert(0, p.name)
             p = p.parentgroup
         return path
 
diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 8a9c533..219c03c 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -418,11 +418,11 @@ class PyKeePass:
             element = path[-1] if len(path) > 0 else ''
             # build xpath from group_path and element
             for group in group_path:
-                xp += fill(path_xp[regex]['group'], group, flags=flags)
+                xp += fill(path_xp[None if group is None else regex]['group'], group, flags=flags)
             if 'Entry' in prefix:
-                xp += fill(path_xp[regex]['entry'], element, flags=flags)
-            elif element and 'Group' in prefix:
-                xp += fill(path_xp[regex]['group'], element, flags=flags)
+                xp += fill(path_xp[None if element is None else regex]['entry'], element, flags=flags)
+            elif element != '' and 'Group' in prefix:
+                xp += fill(path_xp[None if element is None else regex]['group'], element, flags=flags)
 
         else:
             if tree is not None:
diff --git a/pykeepass/xpath.py b/pykeepass/xpath.py
index 91a1f77..502edf2 100644
--- a/pykeepass/xpath.py
+++ b/pykeepass/xpath.py
@@ -37,6 +37,11 @@ attachment_xp = {
 }
 
 path_xp = {
+    # unnamed groups and untitled entries
+    None: {
+        'group': '/Group[not(string(Name))]',
+        'entry': '/Entry[not(string(String[Key="Title"]/Value))]',
+    },
     False: {
         'group': '/Group/Name[text()="{}"]/..',
         'entry': '/Entry/String/Key[text()="Title"]/../Value[text()="{}"]/../..',
-- 
2.43.0


From f849c8a1f8fb0b55b9904679786a0f9220eeecea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:15 +0000
Subject: [PATCH 26/35] fix: times with a UTC offset and plaintext times in
 KDBX4 databases

---
 pykeepass/pykeepass.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 219c03c..3f8fb8b 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1068,10 +1068,13 @@ class PyKeePass:
                         seconds=struct.unpack('<Q', base64.b64decode(text))[0]
                     )
                 )
-            except BinasciiError:
-                return datetime.fromisoformat(text.replace('Z','+00:00')).replace(tzinfo=timezone.utc)
-        else:
-            return datetime.fromisoformat(text.replace('Z','+00:00')).replace(tzinfo=timezone.utc)
+            except (BinasciiError, struct.error):
+                # plaintext time
+                pass
+        value = datetime.fromisoformat(text.replace('Z','+00:00'))
+        if value.tzinfo is None:
+            return value.replace(tzinfo=timezone.utc)
+        return value.astimezone(timezone.utc)
 
 def create_database(
         filename, password=None, keyfile=None, transformed_key=None
-- 
2.43.0


From 3bd38ceff5abf6ed99d502230428b212b18f7356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:31 +0000
Subject: [PATCH 27/35] fix: deref of empty, identifier and cyclic references

---
 pykeepass/pykeepass.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 3f8fb8b..66f25e9 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -916,7 +916,7 @@ class PyKeePass:
 
     # ---------- Misc ----------
 
-    def deref(self, value):
+    def deref(self, value, _pending=()):
 
         """Dereference [field reference][fieldref] of Entry
 
@@ -928,7 +928,7 @@ class PyKeePass:
 
         [fieldref]: https://keepass.info/help/base/fieldrefs.html
         """
-        if not value:
+        if not value or not isinstance(value, str):
             return value
         references = set(re.findall(r'({REF:([TUPANI])@([TUPANI]):([^}]+)})', value))
         if not references:
@@ -944,13 +944,26 @@ class PyKeePass:
         for ref, wanted_field, search_in, search_value in references:
             wanted_field = field_to_attribute[wanted_field]
             search_in = field_to_attribute[search_in]
+            # a reference that depends on itself cannot be resolved
+            if ref in _pending:
+                return None
             if search_in == 'uuid':
-                search_value = uuid.UUID(search_value)
+                try:
+                    search_value = uuid.UUID(search_value)
+                except ValueError:
+                    return None
             ref_entry = self.find_entries(first=True, **{search_in: search_value})
             if ref_entry is None:
                 return None
-            value = value.replace(ref, getattr(ref_entry, wanted_field))
-        return self.deref(value)
+            field = getattr(ref_entry, wanted_field)
+            if wanted_field == 'uuid':
+                field = field.hex.upper()
+            # the field may contain references in turn
+            field = self.deref(field or '', _pending + (ref,))
+            if field is None:
+                return None
+            value = value.replace(ref, field)
+        return value
 
 
     # ---------- Credential Changing and Expiry ----------
-- 
2.43.0


From 17fa463e14ecfb8b9a0fb21b25bdbbb017360afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:58 +0000
Subject: [PATCH 28/35] fix: appending a list of elements moves all or none of
 them

---
 pykeepass/group.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pykeepass/group.py b/pykeepass/group.py
index c0c20c6..84a2a33 100644
--- a/pykeepass/group.py
+++ b/pykeepass/group.py
@@ -94,7 +94,11 @@ class Group(BaseElement):
         """
         # FIXME: check if `entries` is iterable instead of list
         if isinstance(entries, list):
-            for element in [e._element for e in entries]:
+            elements = [e._element for e in entries]
+            # move all or none of them
+            if {self._element, *self._element.iterancestors()}.intersection(elements):
+                raise ValueError('A group cannot be moved into itself')
+            for element in elements:
                 self._element.append(element)
         else:
             self._element.append(entries._element)
-- 
2.43.0


From a9688f323c8a8d42638f450c2db4e556fb602ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:46 +0000
Subject: [PATCH 29/35] fix: key files of 64 bytes that are not hexadecimal
 digits only

---
 pykeepass/kdbx_parsing/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykeepass/kdbx_parsing/common.py b/pykeepass/kdbx_parsing/common.py
index b191e5a..30bca20 100644
--- a/pykeepass/kdbx_parsing/common.py
+++ b/pykeepass/kdbx_parsing/common.py
@@ -154,7 +154,8 @@ def compute_key_composite(password=None, keyfile=None):
         except (etree.XMLSyntaxError, UnicodeDecodeError, AttributeError):
             try:
                 try:
-                    int(keyfile_bytes, 16)
+                    # int() would accept signs, underscores and whitespace
+                    codecs.decode(keyfile_bytes, 'hex')
                     is_hex = True
                 except ValueError:
                     is_hex = False
-- 
2.43.0


From 15857ac6b4a968985fff81aefba8ef66ef5a3ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:50 +0000
Subject: [PATCH 30/35] fix: key files given as a stream that can be read only
 once

---
 pykeepass/pykeepass.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 66f25e9..af85660 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -8,6 +8,7 @@ import uuid
 import zlib
 from binascii import Error as BinasciiError
 from datetime import datetime, timedelta, timezone
+from io import BytesIO
 from pathlib import Path
 
 from construct import Container, ChecksumError, CheckError
@@ -34,6 +35,14 @@ BLANK_DATABASE_FILENAME = "blank_database.kdbx"
 BLANK_DATABASE_LOCATION = os.path.join(os.path.dirname(os.path.realpath(__file__)), BLANK_DATABASE_FILENAME)
 BLANK_DATABASE_PASSWORD = "password"
 
+def rereadable(keyfile):
+    """A key file is read again when the database is saved or reloaded, so keep
+    the content of a stream that can be read only once"""
+    if hasattr(keyfile, 'read') and not (hasattr(keyfile, 'seekable') and keyfile.seekable()):
+        return BytesIO(keyfile.read())
+    return keyfile
+
+
 class PyKeePass:
     """Open a KeePass database
 
@@ -89,6 +98,7 @@ class PyKeePass:
         # TODO: - raise, no filename provided, database not open
         if not filename:
             filename = self.filename
+        keyfile = rereadable(keyfile)
 
         try:
             if hasattr(filename, "read"):
@@ -986,7 +996,7 @@ class PyKeePass:
 
     @keyfile.setter
     def keyfile(self, keyfile):
-        self._keyfile = keyfile
+        self._keyfile = rereadable(keyfile)
         self._transformed_key = None
         self.credchange_date = datetime.now(timezone.utc)
 
-- 
2.43.0


From 060db87777e5c0818414232f19a13cbf5e68f9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:18 +0000
Subject: [PATCH 31/35] fix: saving a database that is not decrypted writes
 nothing

---
 pykeepass/pykeepass.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index af85660..70cabff 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -183,6 +183,10 @@ class PyKeePass:
                 key.
         """
 
+        # do not write half of a file
+        if self.kdbx.body.payload is None:
+            raise ValueError("Database is not decrypted")
+
         if not filename:
             filename = self.filename
         if transformed_key is None:
-- 
2.43.0


From b210b1d432601d33acbf10f30aa852cec13dcf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:18 +0000
Subject: [PATCH 32/35] fix: dump_xml of a database that is not decrypted
 leaves the file alone

---
 pykeepass/pykeepass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 70cabff..5ac66a5 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -358,8 +358,9 @@ class PyKeePass:
         Args:
             filename (`str`): path to output file
         """
+        xml = self.xml()
         with open(filename, 'wb') as f:
-            f.write(self.xml())
+            f.write(xml)
 
     def xpath(self, xpath_str, tree=None, first=False, cast=False, **kwargs):
         """Look up elements in the XML payload and return corresponding object.
-- 
2.43.0


From 7b7480cf8e6d16e126b9a848fb4c07b5e5635cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:34 +0000
Subject: [PATCH 33/35] fix: a refused change of credentials leaves them alone

---
 pykeepass/pykeepass.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 5ac66a5..8d5aff3 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -990,9 +990,10 @@ class PyKeePass:
 
     @password.setter
     def password(self, password):
+        # raises if the database is not decrypted
+        self.credchange_date = datetime.now(timezone.utc)
         self._password = password
         self._transformed_key = None
-        self.credchange_date = datetime.now(timezone.utc)
 
     @property
     def keyfile(self):
@@ -1001,9 +1002,11 @@ class PyKeePass:
 
     @keyfile.setter
     def keyfile(self, keyfile):
-        self._keyfile = rereadable(keyfile)
-        self._transformed_key = None
+        keyfile = rereadable(keyfile)
+        # raises if the database is not decrypted
         self.credchange_date = datetime.now(timezone.utc)
+        self._keyfile = keyfile
+        self._transformed_key = None
 
     @property
     def credchange_required_days(self):
-- 
2.43.0


From b6364564b8ba805683d2ba2a8963d6518239fc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:44 +0000
Subject: [PATCH 34/35] fix: elements with different UUIDs can compare equal

Equality compared hash values, which agree for UUIDs that differ by a
multiple of 2**61 - 1.
---
 pykeepass/baseelement.py | 8 ++++++--
 pykeepass/entry.py       | 4 ++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pykeepass/baseelement.py b/pykeepass/baseelement.py
index 1bfb1b7..074b3f9 100644
--- a/pykeepass/baseelement.py
+++ b/pykeepass/baseelement.py
@@ -170,12 +170,16 @@ class BaseElement:
     def __repr__(self):
         return self.__str__()
 
+    def _identity(self):
+        return (self.uuid,)
+
     def __hash__(self):
-        return hash((self.uuid,))
+        return hash(self._identity())
 
     def __eq__(self, other):
         if isinstance(other, BaseElement):
-            return hash(self) == hash(other)
+            # not the hash values, which may be equal for different UUIDs
+            return self._identity() == other._identity()
         return NotImplemented
 
     def touch(self, modify=False):
diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 6c8ef25..4a3ff77 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -455,7 +455,7 @@ class HistoryEntry(Entry):
         pathstr = super().__str__()
         return 'HistoryEntry: {}'.format(pathstr)
 
-    def __hash__(self):
+    def _identity(self):
         # All history items share the same UUID with themselves and their
         # parent, so consider the mtime also
-        return hash((self.uuid, self.mtime))
+        return (self.uuid, self.mtime)
-- 
2.43.0


From e9abfe5b5c8c89dc665cdf2a62540c528123af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:19 +0000
Subject: [PATCH 35/35] fix: searches and attachments give snapshots as
 ordinary entries

A snapshot found by a search with history, or as the entry of an
attachment, compared equal to its current entry and unequal to the same
snapshot in the history of the entry.
---
 pykeepass/attachment.py | 3 ++-
 pykeepass/pykeepass.py  | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pykeepass/attachment.py b/pykeepass/attachment.py
index ea295bb..a1aefad 100644
--- a/pykeepass/attachment.py
+++ b/pykeepass/attachment.py
@@ -42,7 +42,8 @@ class Attachment:
     def entry(self):
         """`Entry`: entry this attachment is associated with"""
         ancestor = self._element.getparent()
-        return entry.Entry(element=ancestor, kp=self._kp)
+        history = ancestor.getparent() is not None and ancestor.getparent().tag == 'History'
+        return (entry.HistoryEntry if history else entry.Entry)(element=ancestor, kp=self._kp)
 
     @property
     def binary(self):
diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 8d5aff3..d295b5d 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -17,7 +17,7 @@ from lxml import etree
 from lxml.builder import E
 
 from .attachment import Attachment
-from .entry import Entry
+from .entry import Entry, HistoryEntry
 from .exceptions import (
     BinaryError,
     CredentialsError,
@@ -396,7 +396,8 @@ class PyKeePass:
         for e in elements:
             if cast:
                 if e.tag == 'Entry':
-                    res.append(Entry(element=e, kp=self))
+                    history = e.getparent() is not None and e.getparent().tag == 'History'
+                    res.append((HistoryEntry if history else Entry)(element=e, kp=self))
                 elif e.tag == 'Group':
                     res.append(Group(element=e, kp=self))
                 elif e.tag == 'Binary' and e.getparent().tag == 'Entry':
-- 
2.43.0

