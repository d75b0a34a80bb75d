From 30a0918cdca85da93982c1baa000db2459211a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 01/17] fix: make every storage operation one transaction

Single adds and removes committed after each statement, multiple removes and batches were
partially committed by remove_edge_permutation, and an exception left the shared cursor open, so
that nothing was committed (or rolled back) any more. Reading before writing without holding the
write lock also allowed two clients to add the same edge twice.
---
 gb/hypergraph/sql.py    | 41 +++++++++++++++++++++++++++++++++--------
 gb/hypergraph/sqlite.py |  4 ++++
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 612f387..603a37d 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -19,6 +19,7 @@
 #   along with GraphBrain.  If not, see <http://www.gnu.org/licenses/>.
 
 
+import functools
 import math
 import itertools
 import gb.hypergraph.edge as ed
@@ -94,6 +95,28 @@ def edge_matches_pattern(edge, pattern):
     return True
 
 
+def transaction(method):
+    """Decorator: everything that the method writes becomes effective at once when it returns,
+    nothing does if it raises. Inside of a transaction, the method simply becomes part of it."""
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        if self.cur is not None:
+            return method(self, *args, **kwargs)
+        cur = self.open_cursor(local=False)
+        try:
+            self.begin(cur)
+            result = method(self, *args, **kwargs)
+            self.conn.commit()
+            return result
+        except BaseException:
+            self.conn.rollback()
+            raise
+        finally:
+            self.cur = None
+            cur.close()
+    return wrapper
+
+
 class SQL(Backend):
     """Implements generic SQL hypergraph storage."""
 
@@ -107,6 +130,10 @@ class SQL(Backend):
     def create_tables(self):
         raise NotImplementedError()
 
+    def begin(self, cur):
+        """Starts a transaction."""
+        cur.execute('BEGIN')
+
     def open_cursor(self, local=True):
         if local:
             if self.cur is None:
@@ -162,10 +189,9 @@ class SQL(Backend):
 
     def remove_edge_permutation(self, perm):
         eid = ed.edge2str(perm)
-        cur = self.conn.cursor()
+        cur = self.open_cursor()
         cur.execute('DELETE FROM perms WHERE id=%s' % (self.ph,), (eid,))
-        self.conn.commit()
-        cur.close()
+        self.close_cursor(cur, local=True, commit=True)
 
     def remove_edge_permutations(self, edge):
         """Removes all permutations of the given edge."""
@@ -232,14 +258,13 @@ class SQL(Backend):
             self.write_edge_permutations(edge)
         return edge
 
+    @transaction
     def add(self, edges, timestamp=-1):
         """Adds one or multiple edges to the hypergraph if it does not exist yet.
         Adding multiple edges at the same time might be faster."""
         if isinstance(edges[0], (list, tuple)):
-            cur = self.open_cursor(local=False)
             for edge in edges:
                 self.add_raw(edge, timestamp)
-            self.close_cursor(cur, local=False, commit=True)
         else:
             self.add_raw(edges, timestamp)
         return edges
@@ -252,11 +277,11 @@ class SQL(Backend):
             self.remove_edge_permutations(edge)
             self.remove_str(ed.edge2str(edge))
 
+    @transaction
     def remove(self, edges):
         """Removes one or multiple edges from the hypergraph
         Removing multiple edges at the same time might be faster."""
         if isinstance(edges[0], (list, tuple)):
-            # TODO: use transaction?
             for edge in edges:
                 self.remove_raw(edge)
         else:
@@ -284,6 +309,7 @@ class SQL(Backend):
         self.close_cursor(cur, local=True, commit=False)
         return set(symbs)
 
+    @transaction
     def destroy(self):
         """Erase the hypergraph."""
         cur = self.open_cursor()
@@ -315,12 +341,11 @@ class SQL(Backend):
         self.close_cursor(cur, local=True, commit=False)
         return -1
 
+    @transaction
     def batch_exec(self, funs):
         """Auxiliary function to implement ops.batch_exec in SQL environments."""
-        cur = self.open_cursor(local=False)
         for f in funs:
             f(self)
-        self.close_cursor(cur, local=False, commit=True)
 
     def f_all(self, f):
         """Returns a lazy sequence resulting from applying f to every
diff --git a/gb/hypergraph/sqlite.py b/gb/hypergraph/sqlite.py
index fd65ee1..98c99ee 100644
--- a/gb/hypergraph/sqlite.py
+++ b/gb/hypergraph/sqlite.py
@@ -37,6 +37,10 @@ class SQLite(SQL):
         file_path = params['db']
         SQL.__init__(self, sqlite3.connect(file_path))
 
+    def begin(self, cur):
+        """Starts a transaction, as the only writer: what it reads stays true until it ends."""
+        cur.execute('BEGIN IMMEDIATE')
+
     def create_tables(self):
         """Created the tables necessary to store the hypergraph."""
         cur = self.conn.cursor()
-- 
2.43.0


From 4b9a2de9bc207f741d1929e3281eb1629e87c7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 02/17] fix: degree and timestamp must not close the cursor of
 a batch

---
 gb/hypergraph/sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 603a37d..0fb611f 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -324,7 +324,7 @@ class SQL(Backend):
         cur.execute('SELECT degree FROM vertices WHERE id=%s' % (self.ph,), (vert_str,))
         for row in cur:
             deg = row[0]
-            cur.close()
+            self.close_cursor(cur, local=True, commit=False)
             return deg
         self.close_cursor(cur, local=True, commit=False)
         return 0
@@ -336,7 +336,7 @@ class SQL(Backend):
         cur.execute('SELECT timestamp FROM vertices WHERE id=%s' % (self.ph,), (vert_str,))
         for row in cur:
             ts = row[0]
-            cur.close()
+            self.close_cursor(cur, local=True, commit=False)
             return ts
         self.close_cursor(cur, local=True, commit=False)
         return -1
-- 
2.43.0


From 3217f882fbdd9cd923ef21863493eaac1401b827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 03/17] fix: keep the degree of an edge that occurs in other
 edges

Adding such an edge reset its degree to zero, removing it dropped its vertex.
---
 gb/hypergraph/sql.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 0fb611f..883484d 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -254,7 +254,7 @@ class SQL(Backend):
                 vert_str = ed.edge2str(vert)
                 if not self.inc_degree(vert_str):
                     self.add_str(vert_str, 1, timestamp)
-            self.add_str(ed.edge2str(edge), 0, timestamp)
+            self.add_str(ed.edge2str(edge), self.degree(edge), timestamp)
             self.write_edge_permutations(edge)
         return edge
 
@@ -275,7 +275,8 @@ class SQL(Backend):
             for vert in edge:
                 self.dec_degree(ed.edge2str(vert))
             self.remove_edge_permutations(edge)
-            self.remove_str(ed.edge2str(edge))
+            if self.degree(edge) == 0:
+                self.remove_str(ed.edge2str(edge))
 
     @transaction
     def remove(self, edges):
-- 
2.43.0


From f03f9a53b5e9255510638a105db3065f5de76891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 04/17] fix: do not confuse edges that Python considers equal

7 and 7.0 are different entities with different vertices and permutations, but compare equal, and
an edge given as a list is the same entity as a tuple, but compares different.
---
 gb/hypergraph/sql.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 883484d..eb46d74 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -64,7 +64,7 @@ def unpermutate(tokens, nper):
 
 
 def cur2edges(cur):
-    """Transforms a cursor from a database query into a set of edges."""
+    """Transforms a cursor from a database query into a list of edges."""
     edges = []
     for row in cur:
         res = row[0]
@@ -74,7 +74,7 @@ def cur2edges(cur):
         tokens = unpermutate(tokens, nper)
         edge = ed.str2edge(' '.join(tokens))
         edges.append(edge)
-    return set(edges)
+    return edges
 
 
 def str_plus_1(s):
@@ -90,7 +90,7 @@ def edge_matches_pattern(edge, pattern):
     if n != len(pattern):
         return False
     for i in range(n):
-        if (pattern[i] is not None) and (pattern[i] != edge[i]):
+        if (pattern[i] is not None) and (ed.edge2str(pattern[i]) != ed.edge2str(edge[i])):
             return False
     return True
 
-- 
2.43.0


From fdef064e646f3d4c39b9083c870cefd69b1b9a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 05/17] fix: traverse vertices with a cursor of its own

Inside a batch, any operation between two elements used the same cursor and ended or replaced the
traversal.
---
 gb/hypergraph/sql.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index eb46d74..f5ab7b7 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -352,9 +352,9 @@ class SQL(Backend):
         """Returns a lazy sequence resulting from applying f to every
            vertex map (including non-atomic) in the hypergraph.
            A vertex map contains the keys vertex and degree."""
-        cur = self.open_cursor()
+        cur = self.conn.cursor()
         cur.execute('SELECT id, degree FROM vertices')
         for row in cur:
             vmap = {'vertex': ed.str2edge(row[0]), 'degree': row[1]}
             yield f(vmap)
-        self.close_cursor(cur, local=True, commit=False)
+        cur.close()
-- 
2.43.0


From 33838a9ac3800edf910d8d6acf37cb77713cb873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 06/17] fix: buffered edges keep their timestamps, flushing
 nothing is harmless

All buffered edges got the timestamp of the add that happened to fill the buffer (or of the final
flush), and flushing an empty buffer raised IndexError.
---
 gb/hypergraph/batch_hypergraph.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/batch_hypergraph.py b/gb/hypergraph/batch_hypergraph.py
index dd8b305..3128d01 100644
--- a/gb/hypergraph/batch_hypergraph.py
+++ b/gb/hypergraph/batch_hypergraph.py
@@ -30,11 +30,19 @@ class BatchHyperGraph(hypergraph.HyperGraph):
         self.hg = hg
         self.backend = hg.backend
         self.buffer = []
+        self.timestamps = []
         self.buffer_max = buffer_max
 
     def flush(self, timestamp=-1):
-        self.backend.add(self.buffer, timestamp)
+        """Stores the buffered edges, all or none. The timestamp is the one of the edges that were added without."""
+        self.backend.batch_exec([lambda backend: self.write_buffer(backend, timestamp)])
         self.buffer = []
+        self.timestamps = []
+
+    def write_buffer(self, backend, timestamp):
+        """Auxiliary function for flush to call from inside a transaction."""
+        for edge, edge_timestamp in zip(self.buffer, self.timestamps):
+            backend.add([edge], timestamp if edge_timestamp == -1 else edge_timestamp)
 
     def add(self, edges, timestamp=-1):
         """Adds one or multiple edges to the hypergraph if it does not exist yet.
@@ -43,8 +51,9 @@ class BatchHyperGraph(hypergraph.HyperGraph):
             self.buffer += edges
         else:
             self.buffer.append(edges)
+        self.timestamps += [timestamp] * (len(self.buffer) - len(self.timestamps))
 
         if len(self.buffer) > self.buffer_max:
-            self.flush(timestamp)
+            self.flush()
 
         return edges
-- 
2.43.0


From 2702c8daf9c612547250417f06a742141b158554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 07/17] fix: make removal by pattern and withdrawal of beliefs
 atomic

Both are several operations, an error, a crash or another client could get between them (and leave
a fact without sources, for example).
---
 gb/hypergraph/hypergraph.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 92588c6..602e9a4 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -96,9 +96,13 @@ class HyperGraph(object):
 
     def remove_by_pattern(self, pattern):
         """Removes from the hypergraph all edges that match the pattern."""
+        self.batch_exec([lambda backend: self.remove_by_pattern_raw(pattern)])
+
+    def remove_by_pattern_raw(self, pattern):
+        """Auxiliary function for remove_by_pattern to call from inside a transaction."""
         edges = self.pattern2edges(pattern)
         for edge in edges:
-            self.remove(edge)
+            self.remove([edge])
 
     # TODO: this can be optimized
     def ego(self, center, depth):
@@ -136,6 +140,10 @@ class HyperGraph(object):
         """A belif is a fact with a source. The link from the source to the fact
            is removed. If no more sources support the fact, then the fact is also
            removed."""
+        self.batch_exec([lambda backend: self.remove_belief_raw(source, edge)])
+
+    def remove_belief_raw(self, source, edge):
+        """Auxiliary function for remove_belief to call from inside a transaction."""
         self.remove((const.source, edge, source))
         if len(self.sources(edge)) == 0:
-            self.remove(edge)
+            self.remove([edge])
-- 
2.43.0


From 338840832e032e9c0385f5738690fa5beb26b234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 08/17] fix: only ignore existing tables when opening an SQLite
 database

Any other error (locked, disk full, I/O) was ignored as well, and a hypergraph without tables
returned.
---
 gb/hypergraph/sqlite.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sqlite.py b/gb/hypergraph/sqlite.py
index 98c99ee..cd2d7d9 100644
--- a/gb/hypergraph/sqlite.py
+++ b/gb/hypergraph/sqlite.py
@@ -26,8 +26,9 @@ from gb.hypergraph.sql import SQL
 def exec_or_ignore(cur, query):
     try:
         cur.execute(query)
-    except sqlite3.OperationalError:
-        pass
+    except sqlite3.OperationalError as e:
+        if 'already exists' not in str(e) and 'duplicate column' not in str(e):
+            raise
 
 
 class SQLite(SQL):
-- 
2.43.0


From 0414d2eee1c52eac0262d3c48fdfd4b744997fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 09/17] fix: match patterns made of wildcards only

They raised IndexError. A final character at the end of a Unicode range could not be incremented either.
---
 gb/hypergraph/sql.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index f5ab7b7..526b0c3 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -219,10 +219,13 @@ class SQL(Backend):
         """Return all the edges that match a pattern.
         A pattern is a collection of entity ids and wildcards (None)."""
         nodes = [node for node in pattern if node is not None]
-        start_str = ed.nodes2str(nodes)
+        start_str = '%s ' % ed.nodes2str(nodes)
         end_str = str_plus_1(start_str)
         cur = self.open_cursor()
-        cur.execute('SELECT id FROM perms WHERE id>=%s AND id<%s' % (self.ph, self.ph), (start_str, end_str))
+        if len(nodes) > 0:
+            cur.execute('SELECT id FROM perms WHERE id>=%s AND id<%s' % (self.ph, self.ph), (start_str, end_str))
+        else:
+            cur.execute('SELECT id FROM perms')
         edges = cur2edges(cur)
         self.close_cursor(cur, local=True, commit=False)
         return set([edge for edge in edges if edge_matches_pattern(edge, pattern)])
-- 
2.43.0


From c42f2bd85e721df5286b0788725393b935b945a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 10/17] fix: a token without digits is not a number

An edge with the symbol - or . could be stored, but every query that found it raised ValueError.
---
 gb/hypergraph/edge.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index 5edb25d..16d40f2 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -53,6 +53,7 @@ def token_type(token):
     s = token
     pos = 0
     point = False
+    digit = False
 
     while len(s) > 0:
         c = s[0]
@@ -66,10 +67,14 @@ def token_type(token):
                 point = True
         elif c < '0' or c > '9':
             return TokenType.STRING
+        else:
+            digit = True
         s = s[1:]
         pos += 1
 
-    if point:
+    if not digit:
+        return TokenType.STRING
+    elif point:
         return TokenType.DOUBLE
     else:
         return TokenType.INTEGER
-- 
2.43.0


From acabcb537cd9d8a7846b67c6ef6573e273522cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 11/17] fix: floats in exponent notation read back as strings

They are written without exponent now, as token_type expects.
---
 gb/hypergraph/edge.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index 16d40f2..e1e796f 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -19,6 +19,7 @@
 #   along with GraphBrain.  If not, see <http://www.gnu.org/licenses/>.
 
 
+from decimal import Decimal
 import gb.hypergraph.symbol as sym
 
 
@@ -133,6 +134,16 @@ def str2edge(edge_str):
         return elements[0]
 
 
+def atom2str(atom):
+    """Convert an atomic entity to its string representation (always without exponent)."""
+    s = str(atom)
+    if sym.sym_type(atom) == sym.SymbolType.FLOAT and 'e' in s:
+        s = format(Decimal(s), 'f')
+        if '.' not in s:
+            s = '%s.0' % s
+    return s
+
+
 def nodes2str(edge):
     """Convert a collection of nodes to a string representation (no outer parenthesis)."""
     node_strings = []
@@ -140,7 +151,7 @@ def nodes2str(edge):
         if sym.sym_type(node) == sym.SymbolType.EDGE:
             node_strings.append(edge2str(node))
         else:
-            node_strings.append(str(node))
+            node_strings.append(atom2str(node))
     return ' '.join(node_strings)
 
 
@@ -149,7 +160,7 @@ def edge2str(edge):
     if sym.sym_type(edge) == sym.SymbolType.EDGE:
         return '(%s)' % nodes2str(edge)
     else:
-        return str(edge)
+        return atom2str(edge)
 
 
 def is_negative(edge):
-- 
2.43.0


From 94adce7e8dbe66159f1de1bec882074c3e270ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 12/17] fix: MySQL rows that an update leaves unchanged exist,
 and ids are case-sensitive

Without FOUND_ROWS, update_or_insert inserted a duplicate when the row had the same values already;
the default collation of utf8 made A/1 and a/1 the same entity. Opening only ignores existing
tables and columns.
---
 gb/hypergraph/mysql.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gb/hypergraph/mysql.py b/gb/hypergraph/mysql.py
index a670737..b93796d 100644
--- a/gb/hypergraph/mysql.py
+++ b/gb/hypergraph/mysql.py
@@ -18,16 +18,16 @@
 
 import MySQLdb
 import _mysql_exceptions
+from MySQLdb.constants import CLIENT, ER
 from gb.hypergraph.sql import SQL
 
 
 def exec_or_ignore(cur, query):
     try:
         cur.execute(query)
-    except _mysql_exceptions.OperationalError:
-        pass
-    except _mysql_exceptions.ProgrammingError:
-        pass
+    except (_mysql_exceptions.OperationalError, _mysql_exceptions.ProgrammingError) as e:
+        if e.args[0] not in (ER.TABLE_EXISTS_ERROR, ER.DUP_FIELDNAME):
+            raise
 
 
 class MySQL(SQL):
@@ -38,7 +38,7 @@ class MySQL(SQL):
         user = params['user']
         password = params['password']
         dbname = params['db']
-        conn = MySQLdb.connect(host=host, user=user, passwd=password, db=dbname)
+        conn = MySQLdb.connect(host=host, user=user, passwd=password, db=dbname, client_flag=CLIENT.FOUND_ROWS)
         conn.autocommit(True)
         SQL.__init__(self, conn, '%s')
 
@@ -48,14 +48,14 @@ class MySQL(SQL):
 
         # Vertices table
         create_table = '%s %s' % ('CREATE TABLE vertices (id VARCHAR(10000), PRIMARY KEY (id(250)))',
-                                  'ENGINE=InnoDB DEFAULT CHARSET=utf8;')
+                                  'ENGINE=InnoDB DEFAULT CHARSET=utf8 COLLATE=utf8_bin;')
         exec_or_ignore(cur, create_table)
         exec_or_ignore(cur, 'ALTER TABLE vertices ADD COLUMN degree INT DEFAULT 0')
         exec_or_ignore(cur, 'ALTER TABLE vertices ADD COLUMN timestamp BIGINT DEFAULT -1')
 
         # Edge permutations table
         create_table = '%s %s' % ('CREATE TABLE perms (id VARCHAR(10000), PRIMARY KEY (id(250)))',
-                                  'ENGINE=InnoDB DEFAULT CHARSET=utf8;')
+                                  'ENGINE=InnoDB DEFAULT CHARSET=utf8 COLLATE=utf8_bin;')
         exec_or_ignore(cur, create_table)
 
         self.conn.commit()
-- 
2.43.0


From bc9d02ad0be35446537ea9568c4a2d8c0eea4f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 13/17] fix: split edges without outer parenthesis that start
 with an edge

Permutations that start with an edge could not be read: star queries (and patterns) for an edge
that occurs in another one raised ValueError.
---
 gb/hypergraph/edge.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/gb/hypergraph/edge.py b/gb/hypergraph/edge.py
index e1e796f..9bb21bf 100644
--- a/gb/hypergraph/edge.py
+++ b/gb/hypergraph/edge.py
@@ -48,6 +48,19 @@ def close_pars(s):
     return -pos - 1
 
 
+def has_outer_pars(s):
+    """Does the parenthesis at the beginning of the string close at its end?"""
+    depth = 0
+    for pos in range(len(s)):
+        if s[pos] == '(':
+            depth += 1
+        elif s[pos] == ')':
+            depth -= 1
+        if depth == 0:
+            return pos > 0 and pos == len(s) - 1
+    return False
+
+
 def token_type(token):
     """Determine the type of a string token: STRING, INTEGER or DOUBLE."""
 
@@ -100,7 +113,7 @@ def split_edge_str(edge_str):
     with or without outer parenthesis."""
 
     edge_inner_str = edge_str
-    if edge_str[0] == '(':
+    if has_outer_pars(edge_str):
         edge_inner_str = edge_str[1:-1]
     stoks = edge_inner_str.split()
 
-- 
2.43.0


From 2a5edac0a737e8bb40aced7758fb852a4f4649c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 14/17] fix: find the edges of a float in exponent notation

---
 gb/hypergraph/sql.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index 526b0c3..fea680a 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -294,9 +294,7 @@ class SQL(Backend):
     def star(self, center):
         """Return all the edges that contain a given entity.
         Entity can be atomic or an edge."""
-        center_id = center
-        if isinstance(center, (list, tuple)):
-            center_id = ed.edge2str(center)
+        center_id = ed.edge2str(center)
         return self.str2perms(center_id)
 
     def symbols_with_root(self, root):
-- 
2.43.0


From f71759b67a50b18738f9bba03046388d739c861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 15/17] fix: remove all edges that match a pattern, also those
 equal up to the type of numbers

---
 gb/hypergraph/hypergraph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gb/hypergraph/hypergraph.py b/gb/hypergraph/hypergraph.py
index 602e9a4..dc28049 100644
--- a/gb/hypergraph/hypergraph.py
+++ b/gb/hypergraph/hypergraph.py
@@ -23,6 +23,7 @@ from gb.hypergraph.null import Null
 from gb.hypergraph.sqlite import SQLite
 from gb.hypergraph.mysql import MySQL
 import gb.hypergraph.constants as const
+import gb.hypergraph.edge as ed
 
 
 class HyperGraph(object):
@@ -103,6 +104,10 @@ class HyperGraph(object):
         edges = self.pattern2edges(pattern)
         for edge in edges:
             self.remove([edge])
+        # a set holds only one of several edges that are equal up to the type of numbers (1 and 1.0)
+        more = self.pattern2edges(pattern)
+        if set(map(ed.edge2str, more)) != set(map(ed.edge2str, edges)):
+            self.remove_by_pattern_raw(pattern)
 
     # TODO: this can be optimized
     def ego(self, center, depth):
-- 
2.43.0


From 09ed9e4f0695ec90ae7df0938b12c19327258484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:07 +0000
Subject: [PATCH 16/17] fix: do not report the stage outputs of an earlier text
 for a text without sentences

---
 gb/knowledge/extractor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gb/knowledge/extractor.py b/gb/knowledge/extractor.py
index 35fc280..d7223d3 100644
--- a/gb/knowledge/extractor.py
+++ b/gb/knowledge/extractor.py
@@ -55,6 +55,7 @@ class Extractor(object):
             print(msg)
 
     def read_text(self, text):
+        self.outputs = []
         if self.parser is None:
             self.debug_msg('creating parser...')
             self.parser = Parser()
-- 
2.43.0


From e09939ea383e430dc8000a95ee7c0973e61e1594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 17/17] fix: an operation of a batch that fails leaves nothing,
 a batch whose transaction was lost fails

---
 gb/hypergraph/sql.py    | 41 +++++++++++++++++++++++++++++++++++++++--
 gb/hypergraph/sqlite.py |  3 +++
 2 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/gb/hypergraph/sql.py b/gb/hypergraph/sql.py
index fea680a..204f9c8 100644
--- a/gb/hypergraph/sql.py
+++ b/gb/hypergraph/sql.py
@@ -97,15 +97,16 @@ def edge_matches_pattern(edge, pattern):
 
 def transaction(method):
     """Decorator: everything that the method writes becomes effective at once when it returns,
-    nothing does if it raises. Inside of a transaction, the method simply becomes part of it."""
+    nothing does if it raises. Inside of a transaction, the method becomes part of it."""
     @functools.wraps(method)
     def wrapper(self, *args, **kwargs):
         if self.cur is not None:
-            return method(self, *args, **kwargs)
+            return self.part(method, *args, **kwargs)
         cur = self.open_cursor(local=False)
         try:
             self.begin(cur)
             result = method(self, *args, **kwargs)
+            self.check_transaction()
             self.conn.commit()
             return result
         except BaseException:
@@ -113,6 +114,7 @@ def transaction(method):
             raise
         finally:
             self.cur = None
+            self.broken = False
             cur.close()
     return wrapper
 
@@ -125,6 +127,8 @@ class SQL(Backend):
         self.conn = conn
         self.create_tables()
         self.cur = None
+        self.depth = 0
+        self.broken = False
         self.ph = ph
 
     def create_tables(self):
@@ -134,11 +138,42 @@ class SQL(Backend):
         """Starts a transaction."""
         cur.execute('BEGIN')
 
+    def in_transaction(self):
+        """Databases can end a transaction by themselves, after an error."""
+        return not self.broken
+
+    def check_transaction(self):
+        if not self.in_transaction():
+            self.broken = True
+            raise RuntimeError('the transaction was aborted by an earlier error')
+
+    def part(self, method, *args, **kwargs):
+        """Executes a method as a part of the current transaction: if it raises, nothing of it remains,
+        and the transaction can go on."""
+        self.check_transaction()
+        name = 'part%d' % self.depth
+        self.depth += 1
+        try:
+            self.cur.execute('SAVEPOINT %s' % name)
+            result = method(self, *args, **kwargs)
+            self.cur.execute('RELEASE SAVEPOINT %s' % name)
+            return result
+        except BaseException:
+            try:
+                self.cur.execute('ROLLBACK TO SAVEPOINT %s' % name)
+                self.cur.execute('RELEASE SAVEPOINT %s' % name)
+            except BaseException:
+                self.broken = True
+            raise
+        finally:
+            self.depth -= 1
+
     def open_cursor(self, local=True):
         if local:
             if self.cur is None:
                 return self.conn.cursor()
             else:
+                self.check_transaction()
                 return self.cur
         else:
             if self.cur is None:
@@ -353,6 +388,8 @@ class SQL(Backend):
         """Returns a lazy sequence resulting from applying f to every
            vertex map (including non-atomic) in the hypergraph.
            A vertex map contains the keys vertex and degree."""
+        if self.cur is not None:
+            self.check_transaction()
         cur = self.conn.cursor()
         cur.execute('SELECT id, degree FROM vertices')
         for row in cur:
diff --git a/gb/hypergraph/sqlite.py b/gb/hypergraph/sqlite.py
index cd2d7d9..61b46fe 100644
--- a/gb/hypergraph/sqlite.py
+++ b/gb/hypergraph/sqlite.py
@@ -42,6 +42,9 @@ class SQLite(SQL):
         """Starts a transaction, as the only writer: what it reads stays true until it ends."""
         cur.execute('BEGIN IMMEDIATE')
 
+    def in_transaction(self):
+        return self.conn.in_transaction and not self.broken
+
     def create_tables(self):
         """Created the tables necessary to store the hypergraph."""
         cur = self.conn.cursor()
-- 
2.43.0

