From fc41dd17b96378f6b30ecea25c8b7b8105c3f32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 01/76] fix: deleting content added in the same version left it
 to be copied

---
 ocfl/inventory.py   | 36 +++++++++++++++++++++++++++++-------
 ocfl/new_version.py |  4 ++++
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/ocfl/inventory.py b/ocfl/inventory.py
index c1cea26..55a7552 100644
--- a/ocfl/inventory.py
+++ b/ocfl/inventory.py
@@ -754,6 +754,33 @@ class Version():
             self.state[digest] = [logical_path]
         return content_path
 
+    def _remove_content_of_this_version(self, digest):
+        """Remove content files with digest in this version from manifest and fixity.
+
+        Arguments:
+            digest: manifest digest which is no longer referenced by the state
+                of this version
+
+        Any content files in other versions are left. Does nothing if content
+        files in this version are the only copies and the state of some other
+        version still references them. Does not leave empty lists in either
+        manifest or fixity.
+        """
+        cpaths = self.inv.manifest[digest]
+        keep = [cpath for cpath in cpaths if not cpath.startswith(self.vdir + "/")]
+        if len(keep) > 0:
+            self.inv.manifest[digest] = keep
+        elif any(digest in v.state for v in self.inv.versions() if v.vdir != self.vdir):
+            return
+        else:
+            del self.inv.manifest[digest]
+        removed = set(cpaths).difference(keep)
+        for fixities in self.inv.fixity.values():
+            for fixity_digest in list(fixities):
+                fixities[fixity_digest] = [cpath for cpath in fixities[fixity_digest] if cpath not in removed]
+                if len(fixities[fixity_digest]) == 0:
+                    del fixities[fixity_digest]
+
     def delete_logical_path(self, path):
         """Delete the given logical path in this version.
 
@@ -786,13 +813,8 @@ class Version():
                     # Just this path, remove digest from state
                     del self.state[digest]
                     # No more references from this version, delete manifest
-                    # entries in this verion
+                    # and fixity entries in this verion
                     if digest in self.inv.manifest:
-                        cpaths = []
-                        for cpath in self.inv.manifest[digest]:
-                            if not cpath.startswith(self.vdir + "/"):
-                                cpaths.append(cpath)
-                        self.inv.manifest[digest] = cpaths
-                    # FIXME - Also adjust fixity!
+                        self._remove_content_of_this_version(digest)
                 return digest
         raise InventoryException("Logical path to delete %s not found!" % (path))
diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 926fbff..a6a34bd 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -364,6 +364,10 @@ class NewVersion():
             inventory.current_version.delete_logical_path(logical_path)
         except InventoryException:
             raise NewVersionException("Cannot delete logical path %s that does not exist in new version %s" % (logical_path, inventory.head))
+        # Don't copy any files that were to be added but aren't used any more
+        used = set(inventory.content_paths)
+        for src_path in [s for (s, c) in self.files_to_copy.items() if c not in used]:
+            del self.files_to_copy[src_path]
 
     def rename(self, old_logical_path, new_logical_path):
         """Rename content in the version state to a new logical_path.
-- 
2.43.0


From 3c03acffde552483ef2f79e9cc9760326dca87c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 02/76] fix: renaming content added in the same version dropped
 it from the manifest

---
 ocfl/new_version.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index a6a34bd..1c70333 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -383,14 +383,12 @@ class NewVersion():
         inventory = self.inventory
         if new_logical_path in inventory.current_version.logical_paths:
             raise NewVersionException("Cannot rename to logical path %s that already exists in new version %s" % (new_logical_path, inventory.head))
-        try:
-            digest = inventory.current_version.delete_logical_path(old_logical_path)
-            if digest in inventory.current_version.state:
-                inventory.current_version.state[digest].append(new_logical_path)
-            else:
-                inventory.current_version.state[digest] = [new_logical_path]
-        except InventoryException:
+        # Change just the state, the content is still used by the new logical path
+        digest = inventory.current_version.digest_for_logical_path(old_logical_path)
+        if digest is None:
             raise NewVersionException("Cannot rename logical path %s that does not exist in new version %s" % (old_logical_path, inventory.head))
+        inventory.current_version.state[digest].remove(old_logical_path)
+        inventory.current_version.state[digest].append(new_logical_path)
 
     def add_from_srcdir(self):
         """Add all content from srcdir."""
-- 
2.43.0


From 7694c572a757318e197a573d741e05ad3ceddbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 03/76] fix: adding the same source file twice lost one of the
 content files

---
 ocfl/new_version.py | 8 ++++----
 ocfl/object.py      | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 1c70333..dfb5bfb 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -45,7 +45,7 @@ class NewVersion():
         self.dedupe = None
         # Additional state needed for final commit
         self.old_digest_algorithm = None
-        self.files_to_copy = {}  # dict: src_path -> content_path
+        self.files_to_copy = {}  # dict: content_path -> src_path
         self.src_fs = fsw_openfs(self.srcdir)
 
     @classmethod
@@ -342,7 +342,7 @@ class NewVersion():
                 or (not in_current_version and not self.forward_delta)
                 or (in_current_version and not self.dedupe)):
             # Yes, we copy this file in...
-            self.files_to_copy[src_path] = content_path
+            self.files_to_copy[content_path] = src_path
             inventory.add_file_to_manifest(digest=digest, content_path=content_path)
 
     def delete(self, logical_path):
@@ -366,8 +366,8 @@ class NewVersion():
             raise NewVersionException("Cannot delete logical path %s that does not exist in new version %s" % (logical_path, inventory.head))
         # Don't copy any files that were to be added but aren't used any more
         used = set(inventory.content_paths)
-        for src_path in [s for (s, c) in self.files_to_copy.items() if c not in used]:
-            del self.files_to_copy[src_path]
+        for content_path in [c for c in self.files_to_copy if c not in used]:
+            del self.files_to_copy[content_path]
 
     def rename(self, old_logical_path, new_logical_path):
         """Rename content in the version state to a new logical_path.
diff --git a/ocfl/object.py b/ocfl/object.py
index e22a93b..f0862a0 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -317,7 +317,7 @@ class Object():  # pylint: disable=too-many-public-methods
             if objdir is not None:
                 self.write_inventory_and_sidecar(inventory, vdir)
                 # Copy files into this version
-                for (srcpath, objpath) in nv.files_to_copy.items():
+                for (objpath, srcpath) in nv.files_to_copy.items():
                     self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
         # Finally populate the object root
         if objdir is not None:
@@ -367,7 +367,7 @@ class Object():  # pylint: disable=too-many-public-methods
         self.write_object_declaration()
         self.write_inventory_and_sidecar(inventory)
         # Write version files
-        for (srcpath, objpath) in nv.files_to_copy.items():
+        for (objpath, srcpath) in nv.files_to_copy.items():
             self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
         logging.info("Created OCFL object %s in %s", self.id, objdir)
         return inventory
@@ -531,7 +531,7 @@ class Object():  # pylint: disable=too-many-public-methods
         # Make new version directory
         self.obj_fs.makedir(inventory.head)
         # Copy files into this version
-        for (srcpath, objpath) in new_version.files_to_copy.items():
+        for (objpath, srcpath) in new_version.files_to_copy.items():
             self.copy_into_object(new_version.src_fs, srcpath, objpath, create_dirs=True)
         # Write inventory in both root and head version
         self.write_inventory_and_sidecar(inventory, inventory.head)
-- 
2.43.0


From 9526a5deb3a0c60c04ba94cdf086d2c3601134ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 04/76] fix: refuse staged logical and content paths that are
 illegal or conflict

---
 ocfl/new_version.py | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index dfb5bfb..32c2344 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -21,6 +21,30 @@ class NewVersionException(Exception):
     """Exception class for NewVersion objects."""
 
 
+def _check_path(path, existing, description):
+    """Check that path is allowed and does not conflict with existing paths.
+
+    Arguments:
+        path (str): logical or content path to check
+        existing (list of str): paths that path will exist alongside
+        description (str): type of path for error message
+
+    Raises:
+        NewVersionException: if path includes empty, . or .. path elements, or
+            if path would make a directory of an existing path or vice versa
+    """
+    elements = path.split("/")
+    for element in elements:
+        if element in ("", ".", ".."):
+            raise NewVersionException("Bad %s path %s, must not include empty, . or .. path elements"
+                                      % (description, path))
+    directories = set("/".join(elements[:n]) for n in range(1, len(elements)))
+    for other in existing:
+        if other in directories or other.startswith(path + "/"):
+            raise NewVersionException("Bad %s path %s, conflicts with %s"
+                                      % (description, path, other))
+
+
 class NewVersion():
     """Class to represent a new version to be added to an Object."""
 
@@ -302,7 +326,8 @@ class NewVersion():
                 object
 
         Raises:
-            NewVersionException: if the specifies content path is not allowed
+            NewVersionException: if the specified content path is not allowed,
+                or if the logical path is not allowed or already exists
         """
         inventory = self.inventory
         prefix = inventory.head + "/" + self.content_directory + "/"
@@ -319,6 +344,9 @@ class NewVersion():
         # Does this logical path already exist?
         if logical_path in inventory.current_version.logical_paths:
             raise NewVersionException("Logical path %s already exists in new version %s" % (logical_path, inventory.head))
+        # Are the paths OK in themselves and together with those we have?
+        _check_path(logical_path, inventory.current_version.logical_paths, "logical")
+        _check_path(content_path, inventory.content_paths, "content")
         # Work out digest, add to state
         digest = file_digest(src_path, inventory.digest_algorithm, fs=self.src_fs)
         if digest in inventory.current_version.state_add_if_not_present():
@@ -378,7 +406,8 @@ class NewVersion():
 
         Raises:
             NewVersionException: if the old logical path doesn't exist in the
-                new version state, or if the new logical path already exists
+                new version state, or if the new logical path already exists or
+                is not allowed
         """
         inventory = self.inventory
         if new_logical_path in inventory.current_version.logical_paths:
@@ -387,6 +416,9 @@ class NewVersion():
         digest = inventory.current_version.digest_for_logical_path(old_logical_path)
         if digest is None:
             raise NewVersionException("Cannot rename logical path %s that does not exist in new version %s" % (old_logical_path, inventory.head))
+        _check_path(new_logical_path,
+                    [path for path in inventory.current_version.logical_paths if path != old_logical_path],
+                    "logical")
         inventory.current_version.state[digest].remove(old_logical_path)
         inventory.current_version.state[digest].append(new_logical_path)
 
-- 
2.43.0


From 536e76455a068e9b43ed2f6da76ab320a482c755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 05/76] fix: write inventory sidecar with the digest algorithm
 of the inventory

---
 ocfl/object.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index f0862a0..3be13e3 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -250,8 +250,12 @@ class Object():  # pylint: disable=too-many-public-methods
         if inventory is not None:
             with self.obj_fs.open(invfile, "w") as fh:
                 inventory.write_json(fh)
-        digest = file_digest(invfile, self.digest_algorithm, fs=self.obj_fs)
-        sidecar = os.path.join(vdir, INVENTORY_FILENAME + "." + self.digest_algorithm)
+        # The sidecar must use the digest algorithm of the inventory
+        digest_algorithm = self.digest_algorithm
+        if inventory is not None and inventory.digest_algorithm is not None:
+            digest_algorithm = inventory.digest_algorithm
+        digest = file_digest(invfile, digest_algorithm, fs=self.obj_fs)
+        sidecar = os.path.join(vdir, INVENTORY_FILENAME + "." + digest_algorithm)
         with self.obj_fs.open(sidecar, "w") as fh:
             fh.write(digest + " " + INVENTORY_FILENAME + "\n")
         return sidecar
-- 
2.43.0


From dee78519334bec9bdf039534698663e9df7ccb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 06/76] fix: new versions of v1.0 objects got an inventory of
 type v1.1

---
 ocfl/object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index 3be13e3..d4a3a12 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -309,6 +309,7 @@ class Object():  # pylint: disable=too-many-public-methods
             else:
                 nv = NewVersion.next_version(inventory=inventory,
                                              srcdir=os.path.join(srcdir, vdir),
+                                             spec_version=self.spec_version,
                                              metadata=metadata,
                                              content_path_normalization=self.content_path_normalization,
                                              forward_delta=self.forward_delta,
@@ -510,6 +511,7 @@ class Object():  # pylint: disable=too-many-public-methods
         inventory.manifest = manifest
         return NewVersion.next_version(inventory=inventory,
                                        srcdir=srcdir,
+                                       spec_version=self.spec_version,
                                        metadata=metadata,
                                        content_path_normalization=self.content_path_normalization,
                                        forward_delta=self.forward_delta,
-- 
2.43.0


From 02e0fef764c0ae2b59d3c12d7f72d11b9588caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 07/76] fix: versions added without metadata had no created
 timestamp

---
 ocfl/object.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index d4a3a12..c33d622 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -350,6 +350,8 @@ class Object():  # pylint: disable=too-many-public-methods
         """
         if self.id is None:
             raise ObjectException("Identifier is not set!")
+        if metadata is None:
+            metadata = VersionMetadata()
         nv = NewVersion.first_version(srcdir=srcdir,
                                       identifier=self.id,
                                       spec_version=self.spec_version,
@@ -452,6 +454,8 @@ class Object():  # pylint: disable=too-many-public-methods
             raise ObjectException("Object at '%s' is not valid, aborting" % objdir)
         inventory = self.parse_inventory()
         # Object is valid, have inventory
+        if metadata is None:
+            metadata = VersionMetadata()
         #
         # Is this a request to change the digest algorithm? We implement this
         # as part of the Object class because it requires access to all
-- 
2.43.0


From ae5818fb8c108b9f639a1e0767c1f436df1f9839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 08/76] fix: first version without files had no state block

---
 ocfl/new_version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 32c2344..53d7501 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -164,7 +164,7 @@ class NewVersion():
             for fixity_type in fixity:
                 inventory.add_fixity_type(fixity_type)
         #
-        inventory.add_version(metadata=metadata)  # also sets head "v1"
+        inventory.add_version(metadata=metadata, state={})  # also sets head "v1"
         if digest_algorithm is None:
             digest_algorithm = DEFAULT_DIGEST_ALGORITHM
         inventory.digest_algorithm = digest_algorithm
-- 
2.43.0


From 7200f5f5707a88f5c924d256541146e6b535f1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 09/76] fix: metadata only update with no srcdir failed

---
 ocfl/new_version.py | 9 +++++----
 ocfl/object.py      | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index 53d7501..af9a56c 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -52,9 +52,9 @@ class NewVersion():
         """Create NewVersion object.
 
         Arguments:
-            srcdir (str): source directory name for files that will be added
-                to this new version. May be a fsw filesystem specification.
-                Default is "."
+            srcdir (str or None): source directory name for files that will be
+                added to this new version. May be a fsw filesystem specification.
+                Default is ".". If None then there is no source directory
 
         The default constructor is not expected to be used directly, see
         NewVersion.first_version(...) and NewVersion.next_version(..) for the
@@ -70,7 +70,8 @@ class NewVersion():
         # Additional state needed for final commit
         self.old_digest_algorithm = None
         self.files_to_copy = {}  # dict: content_path -> src_path
-        self.src_fs = fsw_openfs(self.srcdir)
+        if self.srcdir is not None:
+            self.src_fs = fsw_openfs(self.srcdir)
 
     @classmethod
     def first_version(cls, *,
diff --git a/ocfl/object.py b/ocfl/object.py
index c33d622..0592369 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -405,7 +405,7 @@ class Object():  # pylint: disable=too-many-public-methods
                                     digest_algorithm=self.digest_algorithm,
                                     fixity=self.fixity,
                                     metadata=metadata,
-                                    carry_content_forward=False)
+                                    carry_content_forward=(srcdir is None))
         # Add files if srcdir is set
         if srcdir is not None:
             nv.add_from_srcdir()
-- 
2.43.0


From 224c2202515ba297331c5bbbc012b551d7b97c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 10/76] fix: new version of object in open filesystem ignored
 that filesystem

---
 ocfl/object.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 0592369..0c250e8 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -448,9 +448,12 @@ class Object():  # pylint: disable=too-many-public-methods
             finally be added with write_new_version()
         """
         # Check the current object
-        self.open_obj_fs(objdir)
+        if objdir or (objdir == "" and self.obj_fs is None):
+            self.open_obj_fs(objdir)
+        elif self.obj_fs is None:
+            raise ObjectException("Can't start new version, no object filesystem is open!")
         validator = Validator(check_digests=False, lax_digests=self.lax_digests)
-        if not validator.validate_object(objdir):
+        if not validator.validate_object(self.obj_fs):
             raise ObjectException("Object at '%s' is not valid, aborting" % objdir)
         inventory = self.parse_inventory()
         # Object is valid, have inventory
-- 
2.43.0


From 1895563996f42e832814718097768367b739ae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 11/76] fix: refuse to create or build an object over existing
 files

---
 ocfl/object.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 0c250e8..a9294fa 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -141,6 +141,20 @@ class Object():  # pylint: disable=too-many-public-methods
         except FileNotFoundError as e:
             raise ObjectException("Failed to open object filesystem '%s' (%s)" % (objdir, e))
 
+    def open_new_obj_fs(self, objdir):
+        """Open filesystem for a new object, creating objdir if necessary.
+
+        Arguments:
+            objdir (str): path string, see open_obj_fs()
+
+        Raises:
+            ocfl.ObjectException: on failure to open filesystem or if there is
+                already something at objdir
+        """
+        self.open_obj_fs(objdir, create=True)
+        if not self.obj_fs.isdir("") or len(fsw_listdir_names(self.obj_fs)) > 0:
+            raise ObjectException("Can't create object at '%s', it already exists and is not an empty directory!" % (objdir))
+
     def copy_into_object(self, src_fs, srcfile, filepath, create_dirs=False):
         """Copy from srcfile to filepath in object."""
         dstpath = os.path.dirname(filepath)
@@ -290,7 +304,7 @@ class Object():  # pylint: disable=too-many-public-methods
         if self.id is None:
             raise ObjectException("Can't build object, identifier is not set!")
         if objdir is not None:
-            self.open_obj_fs(objdir, create=True)
+            self.open_new_obj_fs(objdir)
         num_versions = 0
         src_fs = fsw_openfs(srcdir)
         inventory = None
@@ -368,7 +382,7 @@ class Object():  # pylint: disable=too-many-public-methods
         if objdir is None:
             return inventory
         # Write out v1 object
-        self.open_obj_fs(objdir, create=True)
+        self.open_new_obj_fs(objdir)
         self.write_inventory_and_sidecar(inventory, "v1")
         # Write object root with object declaration, inventory and sidecar
         self.write_object_declaration()
-- 
2.43.0


From 7f6efcf7b14bff3386dea52ebdcf3630a627e8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 12/76] fix: build from no version directories or zero padded
 ones wrote an invalid object

---
 ocfl/object.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index a9294fa..c8711b4 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -217,6 +217,8 @@ class Object():  # pylint: disable=too-many-public-methods
                 # Ignore directories that are not valid version dirs
                 pass
         # Do we have a valid sequence of versions?
+        if len(versions) == 0:
+            raise ObjectException("No version directories found")
         n = 1
         for vn in sorted(versions.keys()):
             if vn != n:
@@ -310,7 +312,7 @@ class Object():  # pylint: disable=too-many-public-methods
         inventory = None
         # Create each version of the object
         for (vdir, metadata) in self.version_dirs_and_metadata(src_fs, versions_metadata):
-            if vdir == "v1":
+            if inventory is None:
                 nv = NewVersion.first_version(srcdir=os.path.join(srcdir, vdir),
                                               identifier=self.id,
                                               spec_version=self.spec_version,
@@ -334,7 +336,7 @@ class Object():  # pylint: disable=too-many-public-methods
             inventory = nv.inventory
             num_versions += 1
             if objdir is not None:
-                self.write_inventory_and_sidecar(inventory, vdir)
+                self.write_inventory_and_sidecar(inventory, inventory.head)
                 # Copy files into this version
                 for (objpath, srcpath) in nv.files_to_copy.items():
                     self.copy_into_object(nv.src_fs, srcpath, objpath, create_dirs=True)
-- 
2.43.0


From 090bf54986641c67902496c2d80b09844d9c75f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:06 +0000
Subject: [PATCH 13/76] fix: refuse to create objects with empty id, bad
 content directory or unknown spec version

---
 ocfl/new_version.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ocfl/new_version.py b/ocfl/new_version.py
index af9a56c..e437937 100644
--- a/ocfl/new_version.py
+++ b/ocfl/new_version.py
@@ -10,7 +10,7 @@ import logging
 import os.path
 from urllib.parse import quote as urlquote
 
-from .constants import DEFAULT_DIGEST_ALGORITHM, DEFAULT_CONTENT_DIRECTORY, DEFAULT_SPEC_VERSION
+from .constants import DEFAULT_DIGEST_ALGORITHM, DEFAULT_CONTENT_DIRECTORY, DEFAULT_SPEC_VERSION, SPEC_VERSIONS_SUPPORTED
 from .digest import file_digest
 from .inventory import Inventory, InventoryException
 from .object_utils import make_unused_filepath
@@ -152,6 +152,12 @@ class NewVersion():
           }
         }
         """
+        if not identifier:
+            raise NewVersionException("Object identifier must not be empty")
+        if spec_version not in SPEC_VERSIONS_SUPPORTED:
+            raise NewVersionException("Unsupported specification version %s" % (spec_version))
+        if content_directory is not None and (content_directory in ("", ".", "..") or "/" in content_directory):
+            raise NewVersionException("Bad content directory name '%s'" % (content_directory))
         self = cls(srcdir=srcdir)
         inventory = Inventory()
         self.inventory = inventory
-- 
2.43.0


From ccef383b4905487a93402f7e5f07c39f52c939fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:06 +0000
Subject: [PATCH 14/76] fix: report unreadable root inventory as
 ObjectException and honour lax_digests

---
 ocfl/object.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index c8711b4..8bbd695 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -14,7 +14,7 @@ import logging
 
 from .constants import INVENTORY_FILENAME, DEFAULT_SPEC_VERSION, DEFAULT_CONTENT_DIRECTORY
 from .digest import file_digest
-from .inventory import Inventory
+from .inventory import Inventory, InventoryException
 from .inventory_validator import InventoryValidator
 from .new_version import NewVersion
 from .object_utils import parse_version_directory, ObjectException
@@ -823,10 +823,13 @@ class Object():  # pylint: disable=too-many-public-methods
         Returns:
             ocfl.Inventory: new Inventory object for the parsed inventory.
         """
-        with self.obj_fs.open(INVENTORY_FILENAME, "r") as fh:
-            inventory = Inventory(json.load(fh))
+        try:
+            with self.obj_fs.open(INVENTORY_FILENAME, "r", encoding="utf-8") as fh:
+                inventory = Inventory(json.load(fh))
+        except (FileNotFoundError, ValueError, InventoryException) as e:
+            raise ObjectException("Root inventory cannot be read (%s)" % (str(e)))
         # Validate
-        iv = InventoryValidator()
+        iv = InventoryValidator(lax_digests=self.lax_digests)
         if not iv.validate(inventory=inventory.data):
             raise ObjectException("Root inventory is not valid (%d errors)" % iv.log.num_errors)
         self.spec_version = iv.spec_version
-- 
2.43.0


From b8b7a2e345b38d41e81f679ca248217957d8f8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:06 +0000
Subject: [PATCH 15/76] fix: extract_file must not overwrite an existing file

---
 ocfl/object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index 8bbd695..7cca50c 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -795,6 +795,8 @@ class Object():  # pylint: disable=too-many-public-methods
             raise ObjectException("Destination parent directory does not exist or could not be opened (%s)" % (e))
         # Now extract...
         basename = os.path.basename(logical_path)
+        if dst_fs.exists(basename):
+            raise ObjectException("Target file %s already exists in %s, aborting!" % (basename, dstdir))
         manifest = inv.manifest
         state = inv.version(version).state
         # Extract the specified file
-- 
2.43.0


From 4caf83ecf8187ac077e616bfaa58fd26b052be91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 16/76] fix: validator used for several objects counted errors
 of earlier ones

---
 ocfl/validator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 2a70b58..d8a103c 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -119,6 +119,7 @@ class Validator():
         when validating a storage root, for example.
         """
         self.initialize()
+        start_errors = self.log.num_errors
         try:
             if isinstance(path, str):
                 self.obj_fs = fsw_openfs(path)
@@ -162,7 +163,7 @@ class Validator():
             return False
         try:
             inventory, inv_validator = self.validate_inventory(inv_file)
-            inventory_is_valid = self.log.num_errors == 0
+            inventory_is_valid = self.log.num_errors == start_errors
             self.root_inv_validator = inv_validator
             all_versions = inv_validator.all_versions
             self.id = inv_validator.id
@@ -179,7 +180,7 @@ class Validator():
                 self.validate_content(inventory, all_versions, prior_manifest_digests, prior_fixity_digests)
         except ValidatorAbortException:
             pass
-        return self.log.num_errors == 0
+        return self.log.num_errors == start_errors
 
     def validate_inventory(self, inv_file, where="root", force_spec_version=None):
         """Validate a given inventory file, record errors with self.log.error().
-- 
2.43.0


From 53662b18359db297fd9f29f77846c18f78843f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 17/76] fix: conflict of a path with a directory above the
 immediate parent was not reported

---
 ocfl/inventory_validator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 08b3af5..463465b 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -540,9 +540,10 @@ class InventoryValidator():
                 if element in [".", "..", ""]:
                     self._error("E052", version=version, path=path)
                     return
-            # Accumulate paths and directories
+            # Accumulate paths and directories, including all parent directories
             logical_paths.add(path)
-            logical_directories.add("/".join(elements[0:-1]))
+            for n in range(1, len(elements)):
+                logical_directories.add("/".join(elements[0:n]))
 
     def _check_content_path(self, path, content_paths, content_directories):
         """Check logical path and accumulate paths/directories for E101 check.
@@ -571,7 +572,8 @@ class InventoryValidator():
             self._error("E101a", path=path)
             return False
         content_paths.add(path)
-        content_directories.add("/".join([m.group(1), m.group(2)] + elements[0:-1]))
+        for n in range(0, len(elements)):
+            content_directories.add("/".join([m.group(1), m.group(2)] + elements[0:n]))
         return True
 
     def _compare_states_for_version(self, prior, version):
-- 
2.43.0


From 4d66dc940562b4b8e1e5b5427a1829812caeb56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 18/76] fix: newline in content path hid path traversal
 elements after it

---
 ocfl/inventory_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 463465b..361da27 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -555,7 +555,7 @@ class InventoryValidator():
         if path.startswith("/") or path.endswith("/"):
             self._error("E100", path=path)
             return False
-        m = re.match(r"""^(v\d+)/([^/]+)/(.+)""", path)
+        m = re.match(r"""^(v\d+)/([^/]+)/(.+)""", path, re.DOTALL)
         if not m:
             self._error("E042a", path=path)
             return False
-- 
2.43.0


From 9d80b06818896fe4eae3c8a8dc15dd803b2496a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 19/76] fix: inventory type with extra trailing text was
 accepted

---
 ocfl/inventory_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 361da27..af5563a 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -135,7 +135,7 @@ class InventoryValidator():
             self._error("E038a", expected="https://ocfl.io/" + force_spec_version + "/spec/#inventory", got=inventory["type"])
         else:
             # Extract specification version
-            m = re.match(r"""https://ocfl.io/(\d+.\d)/spec/#inventory""", inventory["type"])
+            m = re.fullmatch(r"""https://ocfl\.io/(\d+\.\d)/spec/#inventory""", inventory["type"])
             if not m:
                 self._error("E038b", got=inventory["type"], assumed_spec_version=self.spec_version)
             elif m.group(1) in SPEC_VERSIONS_SUPPORTED:
-- 
2.43.0


From be42d22742e85a10418dacd9e862b382cdcf48ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 20/76] fix: digest case difference between version inventories
 was reported as error

---
 ocfl/inventory_validator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index af5563a..31be741 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -591,8 +591,10 @@ class InventoryValidator():
         here provide more detailed diagnostics in the case that the digest
         algorithm is the same across versions being compared.
         """
-        self_state = self.inventory["versions"][version]["state"]
-        prior_state = prior.inventory["versions"][version]["state"]
+        self_state = {normalized_digest(digest, self.digest_algorithm): files
+                      for digest, files in self.inventory["versions"][version]["state"].items()}
+        prior_state = {normalized_digest(digest, prior.digest_algorithm): files
+                       for digest, files in prior.inventory["versions"][version]["state"].items()}
         for digest in set(self_state.keys()).union(prior_state.keys()):
             if digest not in prior_state:
                 self._error("E066d", version=version, prior_head=prior.head,
-- 
2.43.0


From 33a509e2f97b7b59bb8061faa7addd95c687fc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:17 +0000
Subject: [PATCH 21/76] fix: keep recorded parent directories as before, expand
 when checking conflicts

---
 ocfl/inventory_validator.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index 31be741..bd0d8b2 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -51,6 +51,16 @@ def _get_logical_path_map(inventory, version):
     return file_map
 
 
+def _with_parent_directories(directories):
+    """Get set of the given directories and all of the directories above them."""
+    all_directories = set()
+    for directory in directories:
+        while directory and directory not in all_directories:
+            all_directories.add(directory)
+            directory = directory.rpartition("/")[0]
+    return all_directories
+
+
 class InventoryValidator():
     """Class for OCFL Inventory Validator."""
 
@@ -294,7 +304,7 @@ class InventoryValidator():
                         if self._check_content_path(file, content_paths, content_directories):
                             manifest_files_correct_format.append(file)
             # Check for conflicting content paths
-            for path in content_directories:
+            for path in _with_parent_directories(content_directories):
                 if path in content_paths:
                     self._error("E101b", path=path)
         return manifest_files, manifest_files_correct_format, unnormalized_digests
@@ -487,7 +497,7 @@ class InventoryValidator():
                     norm_digest = normalized_digest(digest, self.digest_algorithm)
                     digests.append(norm_digest)
             # Check for conflicting logical paths
-            for path in logical_directories:
+            for path in _with_parent_directories(logical_directories):
                 if path in logical_paths:
                     self._error("E095b", version=version, path=path)
         return digests
@@ -540,10 +550,9 @@ class InventoryValidator():
                 if element in [".", "..", ""]:
                     self._error("E052", version=version, path=path)
                     return
-            # Accumulate paths and directories, including all parent directories
+            # Accumulate paths and directories
             logical_paths.add(path)
-            for n in range(1, len(elements)):
-                logical_directories.add("/".join(elements[0:n]))
+            logical_directories.add("/".join(elements[0:-1]))
 
     def _check_content_path(self, path, content_paths, content_directories):
         """Check logical path and accumulate paths/directories for E101 check.
@@ -572,8 +581,7 @@ class InventoryValidator():
             self._error("E101a", path=path)
             return False
         content_paths.add(path)
-        for n in range(0, len(elements)):
-            content_directories.add("/".join([m.group(1), m.group(2)] + elements[0:n]))
+        content_directories.add("/".join([m.group(1), m.group(2)] + elements[0:-1]))
         return True
 
     def _compare_states_for_version(self, prior, version):
-- 
2.43.0


From a50e630a637c3cff0559ca3fbc4e364b385fe9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 22/76] fix: validation of inventory with values of unexpected
 JSON types raised exceptions

---
 ocfl/data/validation-errors.json |  6 ++++++
 ocfl/inventory_validator.py      | 22 +++++++++++++++++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/ocfl/data/validation-errors.json b/ocfl/data/validation-errors.json
index 65fff9e..901ae46 100644
--- a/ocfl/data/validation-errors.json
+++ b/ocfl/data/validation-errors.json
@@ -322,6 +322,12 @@
        "en": "OCFL Object %s inventory %s version block created value is not a JSON string"
     }
   },
+  "E047": {
+    "params": ["where", "version"],
+    "description": {
+      "en": "OCFL Object %s inventory %s version block is not a JSON object"
+    }
+  },
   "E050a": {
     "params": ["where", "digests"],
     "description": {
diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index bd0d8b2..b9f091a 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -124,6 +124,9 @@ class InventoryValidator():
         self.inventory = inventory
         self.spec_version = self.default_spec_version if force_spec_version is None else force_spec_version
         self.log.spec_version = self.spec_version
+        if not isinstance(inventory, dict):
+            self._error("E033", explanation="Inventory is not a JSON object")
+            return False
         if "id" in inventory:
             iid = inventory["id"]
             if not isinstance(iid, str) or iid == "":
@@ -157,6 +160,9 @@ class InventoryValidator():
             self._error("E036c")
         elif inventory["digestAlgorithm"] == "sha512":
             pass
+        elif not isinstance(inventory["digestAlgorithm"], str):
+            self._error("E025a", digest_algorithm=inventory["digestAlgorithm"])
+            return False
         elif self.lax_digests:
             self.digest_algorithm = inventory["digestAlgorithm"]
         elif inventory["digestAlgorithm"] == "sha256":
@@ -300,6 +306,9 @@ class InventoryValidator():
                     else:
                         manifest_digests.add(norm_digest)
                     for file in manifest[digest]:
+                        if not isinstance(file, str):
+                            self._error("E092", digest=digest)  # must have list of path strings
+                            continue
                         manifest_files[file] = norm_digest
                         if self._check_content_path(file, content_paths, content_directories):
                             manifest_files_correct_format.append(file)
@@ -354,7 +363,9 @@ class InventoryValidator():
                             else:
                                 digests_seen.add(norm_digest)
                             for file in fixity_algoritm_block[digest]:
-                                if file not in manifest_files:
+                                if not isinstance(file, str):
+                                    self._error("E057c", digest=digest, algorithm=digest_algorithm)  # must have list of path strings
+                                elif manifest_files is not None and file not in manifest_files:
                                     self._error("E057d", digest=norm_digest, algorithm=digest_algorithm, path=file)
 
     def _validate_version_sequence(self, versions):
@@ -427,6 +438,9 @@ class InventoryValidator():
         digests_used = []
         for v in all_versions:
             version = versions[v]
+            if not isinstance(version, dict):
+                self._error("E047", version=v)  # Must be a JSON object
+                continue
             if "created" not in version:
                 self._error("E048", version=v)  # No created
             elif not isinstance(versions[v]["created"], str):
@@ -487,11 +501,13 @@ class InventoryValidator():
                     self._error("E050e", version=version, digest=digest)
                 else:
                     for path in state[digest]:
-                        if path in logical_paths:
+                        if not isinstance(path, str):
+                            self._error("E050e", version=version, digest=digest)
+                        elif path in logical_paths:
                             self._error("E095a", version=version, path=path)
                         else:
                             self._check_logical_path(path, version, logical_paths, logical_directories)
-                    if digest not in unnormalized_digests:
+                    if unnormalized_digests is not None and digest not in unnormalized_digests:
                         # Exact string value must match, not just normalized
                         self._error("E050f", version=version, digest=digest)
                     norm_digest = normalized_digest(digest, self.digest_algorithm)
-- 
2.43.0


From f5f9b247c06d0e59fd124a01f148d3890018af04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 23/76] fix: unreadable or non-JSON files in object made
 validation raise exceptions

---
 ocfl/namaste.py   | 9 ++++++---
 ocfl/validator.py | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/ocfl/namaste.py b/ocfl/namaste.py
index 3731959..16a64d6 100644
--- a/ocfl/namaste.py
+++ b/ocfl/namaste.py
@@ -122,13 +122,16 @@ class Namaste():
         if fsw is not None:
             try:
                 content = fsw.read_text(filepath)
-            except FileNotFoundError:
+            except (OSError, UnicodeDecodeError):
                 raise NamasteException("Namaste file %s cannot be read!" % (filepath))
         else:
             if not os.path.isfile(filepath):
                 raise NamasteException("Namaste file %s does not exist!" % (filepath))
-            with open(filepath, "r", encoding="utf-8") as fh:
-                content = fh.read()
+            try:
+                with open(filepath, "r", encoding="utf-8") as fh:
+                    content = fh.read()
+            except (OSError, UnicodeDecodeError):
+                raise NamasteException("Namaste file %s cannot be read!" % (filepath))
         if self.tvalue != self._tr_func(content):
             raise NamasteException("Content of Namaste file %s doesn't match tvalue %s" % (filepath, self.tvalue))
 
diff --git a/ocfl/validator.py b/ocfl/validator.py
index d8a103c..d2b086a 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -201,18 +201,21 @@ class Validator():
         This method does not look at anything else in the object itself.
         """
         try:
-            with self.obj_fs.open(inv_file, "r") as fh:
+            with self.obj_fs.open(inv_file, "r", encoding="utf-8") as fh:
                 inventory = json.load(fh)
         except FileNotFoundError:
             self.log.error("E033", where=where, explanation="Inventory not present")
             raise ValidatorAbortException
-        except json.decoder.JSONDecodeError as e:
+        except (OSError, ValueError, RecursionError) as e:
+            # Not readable as a file, not UTF-8, or not JSON
             self.log.error("E033", where=where, explanation=str(e))
             raise ValidatorAbortException
         inv_validator = InventoryValidator(log=self.log, where=where,
                                            lax_digests=self.lax_digests,
                                            default_spec_version=self.spec_version)
         inv_validator.validate(inventory, force_spec_version=force_spec_version)
+        if not isinstance(inventory, dict):
+            raise ValidatorAbortException
         return inventory, inv_validator
 
     def validate_inventory_digest(self, inv_file, digest_algorithm, where="root"):
@@ -239,7 +242,7 @@ class Validator():
                 digest_actual = file_digest(inv_file, digest_algorithm, fs=self.obj_fs)
                 if digest_actual != digest_recorded:
                     self.log.error("E060", inv_file=inv_file, actual=digest_actual, recorded=digest_recorded, inv_digest_file=inv_digest_file)
-            except ValueError as e:  # pylint: disable=broad-except
+            except (OSError, ValueError) as e:  # pylint: disable=broad-except
                 self.log.error("E061", description=str(e))
         else:
             self.log.error("E058b", inv_digest_file=inv_digest_file)
-- 
2.43.0


From b7a2437b989551abd0b12723d1c0fe1aafdc6f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 24/76] fix: validation failed with exception for a file or for
 many object declarations

---
 ocfl/namaste.py   | 5 +++--
 ocfl/validator.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/ocfl/namaste.py b/ocfl/namaste.py
index 16a64d6..07731f7 100644
--- a/ocfl/namaste.py
+++ b/ocfl/namaste.py
@@ -29,7 +29,8 @@ def find_namastes(d, dir="", fsw=None, limit=10):
         d (int): tag name, D in NAMASTE specification
         dir (str): directory to look in
         fsw (None or AbstractFileSystem): filesystem to use if not None
-        limit (int): limit sets a limit on the number of Namaste objects returned
+        limit (int or None): limit sets a limit on the number of Namaste objects
+            returned, no limit if None
 
     Returns:
         list: of Namaste object values sorted by filename to ensure consistent behaviour when
@@ -47,7 +48,7 @@ def find_namastes(d, dir="", fsw=None, limit=10):
     else:
         filenames = os.listdir(dir)
     filenames = [f for f in filenames if f.startswith(prefix)]
-    if len(filenames) > limit:
+    if limit is not None and len(filenames) > limit:
         raise NamasteException("Found too many Namaste files with tag %s in %s" % (d, dir))
     return [Namaste(d, tvalue=filename[len(prefix):]) for filename in sorted(filenames)]
 
diff --git a/ocfl/validator.py b/ocfl/validator.py
index d2b086a..058b76f 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -126,12 +126,12 @@ class Validator():
             else:
                 self.obj_fs = path
                 path = self.obj_fs.to_json()  # FIXME - Better info?
-        except FileNotFoundError:
+            namastes = find_namastes(0, fsw=self.obj_fs, limit=None)
+        except (FileNotFoundError, NotADirectoryError):
             self.log.error("E003e", path=path)
             return False
         # Object declaration, set spec version number. If there are multiple declarations,
         # look for the lastest object version then report any others as errors
-        namastes = find_namastes(0, fsw=self.obj_fs)
         if len(namastes) == 0:
             self.log.error("E003a", assumed_version=self.spec_version)
         else:
-- 
2.43.0


From ed7d84f904aeeab11df77637a559596bd264d86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 25/76] fix: file with the name of the content directory was
 accepted in a version directory

---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 058b76f..0b32271 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -423,7 +423,7 @@ class Validator():
                     if ((entry == INVENTORY_FILENAME)
                             or (version_dir in self.inventory_digest_files and entry == self.inventory_digest_files[version_dir])):
                         pass
-                    elif entry == self.content_directory:
+                    elif entry == self.content_directory and self.obj_fs.isdir(entrypath):
                         # Check content_directory
                         content_path = os.path.join(version_dir, self.content_directory)
                         num_content_files_in_version = 0
-- 
2.43.0


From f0fea25f07d4bf1d7556b4c1689cb78298fd8918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 26/76] fix: digest algorithm with hyphen not recognized in
 inventory sidecar name

---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 0b32271..3a7c528 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -234,7 +234,7 @@ class Validator():
         """
         if not self.check_digests:
             return
-        m = re.match(r""".*\.(\w+)$""", inv_digest_file)
+        m = re.match(r""".*\.([\w\-]+)$""", inv_digest_file)
         if m:
             digest_algorithm = m.group(1)
             try:
-- 
2.43.0


From f7d071de5eef165dc23724f0ea6c813ca7c008e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 27/76] fix: timestamps with trailing newline or non ASCII
 digits were accepted

---
 ocfl/w3c_datetime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/w3c_datetime.py b/ocfl/w3c_datetime.py
index 9cd7e9e..c3e5e18 100644
--- a/ocfl/w3c_datetime.py
+++ b/ocfl/w3c_datetime.py
@@ -86,7 +86,7 @@ def str_to_datetime(s, context="datetime"):
             s += "-01"
         s += "T00:00:00Z"
     # Now have datetime with timezone info
-    m = re.match(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?$", s)
+    m = re.fullmatch(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?", s, re.ASCII)
     # Chop out fractional seconds if present
     fractional_seconds = 0
     if m is not None:
@@ -101,8 +101,8 @@ def str_to_datetime(s, context="datetime"):
     # Seems that one should be able to handle timezone offset
     # with dt.tzinfo module but this has variation in behavior
     # between python 2.6 and 2.7... so do here for now
-    m = re.match(r"(\d\d\d\d\-\d\d\-\d\dT\d\d:\d\d(:\d\d)?)(Z|([+-])"
-                 r"(\d\d):(\d\d))?$", s)
+    m = re.fullmatch(r"(\d\d\d\d\-\d\d\-\d\dT\d\d:\d\d(:\d\d)?)(Z|([+-])"
+                     r"(\d\d):(\d\d))?", s, re.ASCII)
     if m is None:
         raise ValueError("Bad datetime format (%s)" % s)
     dt = dateutil_parser.parse(m.group(1) + "Z")
-- 
2.43.0


From 6918d746ecd94b85259ca306a1943ed6adffaa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 28/76] fix: digests with trailing newline were accepted

---
 ocfl/inventory_validator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/inventory_validator.py b/ocfl/inventory_validator.py
index b9f091a..553872a 100644
--- a/ocfl/inventory_validator.py
+++ b/ocfl/inventory_validator.py
@@ -292,7 +292,7 @@ class InventoryValidator():
             content_paths = set()
             content_directories = set()
             for digest in manifest:
-                m = re.match(self._digest_regex(), digest)
+                m = re.fullmatch(self._digest_regex(), digest)
                 if not m:
                     self._error("E025b", digest=digest, algorithm=self.digest_algorithm)  # wrong form of digest
                 elif not isinstance(manifest[digest], list):
@@ -347,7 +347,7 @@ class InventoryValidator():
                 else:
                     digests_seen = set()
                     for digest in fixity_algoritm_block:
-                        m = re.match(regex, digest)
+                        m = re.fullmatch(regex, digest)
                         if not m:
                             self._error("E057b", digest=digest, algorithm=digest_algorithm)  # wrong form of digest
                         elif not isinstance(fixity_algoritm_block[digest], list):
@@ -495,7 +495,7 @@ class InventoryValidator():
         else:
             digest_re = re.compile(self._digest_regex())
             for digest in state:
-                if not digest_re.match(digest):
+                if not digest_re.fullmatch(digest):
                     self._error("E050d", version=version, digest=digest)
                 elif not isinstance(state[digest], list):
                     self._error("E050e", version=version, digest=digest)
-- 
2.43.0


From 8bd7086810ec8d267269ca78db41a8fc4b7ae58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:52 +0000
Subject: [PATCH 29/76] fix: comparison of invalid version inventories raised
 exceptions

---
 ocfl/validator.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 3a7c528..ebd2367 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -81,6 +81,7 @@ class Validator():
         self.content_directory_set = None
         self.inventory_digest_files = None
         self.root_inv_validator = None
+        self.root_inventory_is_valid = None
         self.obj_fs = None
         self.initialize()
 
@@ -96,6 +97,7 @@ class Validator():
         self.content_directory = DEFAULT_CONTENT_DIRECTORY
         self.inventory_digest_files = {}  # index by version_dir, algorithms may differ
         self.root_inv_validator = None
+        self.root_inventory_is_valid = False
         self.obj_fs = None
 
     def status_str(self, prefix=""):
@@ -161,11 +163,13 @@ class Validator():
         if not self.obj_fs.exists(inv_file):
             self.log.error("E063")
             return False
+        start_inventory_errors = self.log.num_errors
         try:
             inventory, inv_validator = self.validate_inventory(inv_file)
             inventory_is_valid = self.log.num_errors == start_errors
             self.root_inv_validator = inv_validator
             all_versions = inv_validator.all_versions
+            self.root_inventory_is_valid = self.log.num_errors == start_inventory_errors
             self.id = inv_validator.id
             self.content_directory = inv_validator.content_directory
             self.content_directory_set = inv_validator.content_directory_set
@@ -337,7 +341,9 @@ class Validator():
                 # Note that inventories in prior versions may use different digest
                 # algorithms from the current invenotory. Also, they may accord
                 # with the same or earlier versions of the specification
+                start_errors = self.log.num_errors
                 version_inventory, inv_validator = self.validate_inventory(inv_file, where=version_dir)
+                version_inventory_is_valid = self.log.num_errors == start_errors
                 this_spec_version = inv_validator.spec_version
                 digest_algorithm = inv_validator.digest_algorithm
                 self.validate_inventory_digest(inv_file, digest_algorithm, where=version_dir)
@@ -360,7 +366,7 @@ class Validator():
                     first_version_content_directory_set = False  # report E019 just once
                 if self.content_directory != inv_validator.content_directory:
                     self.log.error("E020", where=version_dir, root_content_directory=self.content_directory, version_content_directory=inv_validator.content_directory)
-                if "manifest" in version_inventory:
+                if "manifest" in version_inventory and version_inventory_is_valid:
                     # Check that all files listed in prior inventories are in manifest
                     not_seen = set(prior_manifest_digests.keys())
                     for digest in version_inventory["manifest"]:
@@ -382,11 +388,12 @@ class Validator():
                                 prior_manifest_digests[filepath][digest_algorithm][digest] = []
                             prior_manifest_digests[filepath][digest_algorithm][digest].append(version_dir)
                 # Is this inventory an appropriate prior version of the object root inventory?
-                if self.root_inv_validator is not None:
+                # The comparison is possible only if both are internally consistent
+                if self.root_inventory_is_valid and version_inventory_is_valid:
                     self.root_inv_validator.validate_as_prior_version(inv_validator)
                 # Fixity blocks are independent in each version. Record all values and the versions
                 # they occur in for later checks against content
-                if "fixity" in version_inventory:
+                if "fixity" in version_inventory and version_inventory_is_valid:
                     for digest_algorithm in version_inventory["fixity"]:
                         for unnormalized_digest in version_inventory["fixity"][digest_algorithm]:
                             digest = normalized_digest(unnormalized_digest, digest_type=digest_algorithm)
-- 
2.43.0


From 8a1d577eba4ad602b319aeaa8e7ed5e2d740025c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:08 +0000
Subject: [PATCH 30/76] fix: unknown digest algorithms with lax_digests made
 validation raise ValueError

---
 ocfl/validator.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index ebd2367..42922c0 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -471,10 +471,8 @@ class Validator():
                         self.log.error("E092b", where="root", content_path=filepath)
                     else:
                         if self.check_digests:
-                            content_digest = file_digest(filepath, digest_type=self.digest_algorithm, fs=self.obj_fs)
-                            if content_digest != normalized_digest(digest, digest_type=self.digest_algorithm):
-                                self.log.error("E092a", where="root", digest_algorithm=self.digest_algorithm, digest=digest, content_path=filepath, content_digest=content_digest)
-                            known_digests = {self.digest_algorithm: content_digest}
+                            known_digests = {}
+                            self.check_additional_digests(filepath, known_digests, {filepath: {self.digest_algorithm: {digest: ["root"]}}}, "E092a")
                             # Are there digest values in the fixity block?
                             self.check_additional_digests(filepath, known_digests, fixity_digests, "E093a")
                             # Are there other digests for this same file from other inventories?
@@ -505,7 +503,11 @@ class Validator():
                     # Don't recompute anything, just use it if we've seen it before
                     content_digest = known_digests[digest_algorithm]
                 else:
-                    content_digest = file_digest(filepath, digest_type=digest_algorithm, fs=self.obj_fs)
+                    try:
+                        content_digest = file_digest(filepath, digest_type=digest_algorithm, fs=self.obj_fs)
+                    except ValueError:
+                        # Unknown algorithm (with lax_digests), unable to check
+                        continue
                     known_digests[digest_algorithm] = content_digest
                 for digest in additional_digests[filepath][digest_algorithm]:
                     if content_digest != normalized_digest(digest, digest_type=digest_algorithm):
-- 
2.43.0


From f01a5c596a90b51f8ad8d4b9f988d88f87157865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 31/76] fix: objects written with sha512-spec-ex digests did
 not validate

---
 ocfl/digest.py    | 2 +-
 ocfl/validator.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/digest.py b/ocfl/digest.py
index 2e99656..0c829a6 100755
--- a/ocfl/digest.py
+++ b/ocfl/digest.py
@@ -100,7 +100,7 @@ DIGEST_REGEXES = {
     "blake2b-384": r"""^[0-9a-fA-F]{96}$""",
     "blake2b-256": r"""^[0-9a-fA-F]{64}$""",
     "blake2b-160": r"""^[0-9a-fA-F]{40}$""",
-    "sha512-spec-ex": r"""^[0-9a-f]{6}\.\.\.[0-9a-f]{3}$""",
+    "sha512-spec-ex": r"""^[0-9a-f]{15}\.\.\.[0-9a-f]{3}$""",
     "sha256-spec-ex": r"""^[0-9a-f]{6}\.\.\.[0-9a-f]{3}$"""
 }
 
diff --git a/ocfl/validator.py b/ocfl/validator.py
index 42922c0..2a7ecc8 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -527,7 +527,7 @@ class Validator():
         with fsw_openfile(inv_digest_file, "r", fs=self.obj_fs) as fh:
             line = fh.readline()
             # we ignore any following lines, could raise exception
-        m = re.match(r"""(\w+)\s+(\S+)\s*$""", line)
+        m = re.match(r"""([\w\.]+)\s+(\S+)\s*$""", line)
         if not m:
             raise ValueError("Bad inventory digest file %s, wrong format" % (inv_digest_file))
         if m.group(2) != INVENTORY_FILENAME:
-- 
2.43.0


From d88645c9034cac914d9744843665608eec569aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 32/76] fix: inventory type that does not match the object
 declaration was accepted

---
 ocfl/validator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 2a7ecc8..455e016 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -134,10 +134,10 @@ class Validator():
             return False
         # Object declaration, set spec version number. If there are multiple declarations,
         # look for the lastest object version then report any others as errors
+        spec_version = None
         if len(namastes) == 0:
             self.log.error("E003a", assumed_version=self.spec_version)
         else:
-            spec_version = None
             for namaste in namastes:
                 # Extract and check spec version number
                 this_file_version = None
@@ -165,7 +165,9 @@ class Validator():
             return False
         start_inventory_errors = self.log.num_errors
         try:
-            inventory, inv_validator = self.validate_inventory(inv_file)
+            # Type of root inventory must match the object declaration provided there is just one
+            declared_version = spec_version if len(namastes) == 1 else None
+            inventory, inv_validator = self.validate_inventory(inv_file, force_spec_version=declared_version)
             inventory_is_valid = self.log.num_errors == start_errors
             self.root_inv_validator = inv_validator
             all_versions = inv_validator.all_versions
-- 
2.43.0


From 9197e92723c179c82f906501011426f95d8bfc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 33/76] fix: storage root with invalid objects was reported as
 valid

---
 ocfl/storage_root.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 1981318..cc51030 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -443,6 +443,7 @@ class StorageRoot():
             - self.log: ValidationLogger object with any traversal errors
         """
         valid = True
+        self.num_traversal_errors = 0
         self.log = ValidationLogger(log_warnings=log_warnings, log_errors=log_errors, lang=lang)
         self.open_root_fs()
         try:
@@ -453,7 +454,7 @@ class StorageRoot():
             return False
         self.log.spec_version = self.spec_version
         self.num_objects, self.good_objects, self.errors = self.validate_hierarchy(validate_objects=validate_objects, check_digests=check_digests, log_warnings=log_warnings, max_errors=max_errors)
-        if self.num_traversal_errors > 0:
+        if self.num_traversal_errors > 0 or self.good_objects < self.num_objects:
             valid = False
         return valid
 
-- 
2.43.0


From 10bb17c607b2f94d7542d4e3cd18b1901a4e9738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 34/76] fix: listing of storage root with unregistered
 extension failed

---
 ocfl/storage_root.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index cc51030..d41f8cd 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -351,7 +351,10 @@ class StorageRoot():
             name = entry["name"]
             if entry["type"] == "directory":
                 if os.path.relpath(name, "extensions") not in self.registered_extensions:
-                    self.log.warning("W901", entry=name)  # FIXME - No good warning code in spec
+                    if self.log is None:
+                        logging.warning("Storage root extension %s is not registered", name)
+                    else:
+                        self.log.warning("W901", entry=name)  # FIXME - No good warning code in spec
             else:
                 self.traversal_error("E086", entry=name)
 
-- 
2.43.0


From 95d04fb5f9638be124dea38e52004eb00e02310b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 35/76] fix: lax_digests ignored when adding to or listing a
 storage root

---
 ocfl/storage_root.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index d41f8cd..7108bc4 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -374,7 +374,7 @@ class StorageRoot():
         for dirpath in self.object_paths():
             obj_fs = fsw_opendir_as_fs(fs=self.root_fs, path=dirpath)
             # Parse inventory to extract id
-            identifier = Object(obj_fs=obj_fs).id_from_inventory()
+            identifier = Object(obj_fs=obj_fs, lax_digests=self.lax_digests).id_from_inventory()
             self.num_objects += 1
             yield (dirpath, identifier)
             # FIXME - maybe do some more stuff in here
@@ -476,7 +476,7 @@ class StorageRoot():
         self.open_root_fs()
         self.check_root_structure()
         # Sanity check
-        o = Object(path=object_path)
+        o = Object(path=object_path, lax_digests=self.lax_digests)
         inventory = o.parse_inventory()
         identifier = inventory.id
         # Now copy
-- 
2.43.0


From 402b10c585d446ba7ab86ebefdae931646c8472b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 36/76] fix: storage root created with tuple tree layout could
 not be opened

---
 ocfl/layout_registry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocfl/layout_registry.py b/ocfl/layout_registry.py
index 52b7ee6..ac75399 100644
--- a/ocfl/layout_registry.py
+++ b/ocfl/layout_registry.py
@@ -65,5 +65,6 @@ add_layout("0003-hash-and-id-n-tuple-storage-layout", Layout_0003_Hash_And_Id_N_
 add_layout("0003", Layout_0003_Hash_And_Id_N_Tuple)
 add_layout("nnnn-flat-quoted-storage-layout", Layout_NNNN_Flat_Quoted)
 add_layout("flat-quoted", Layout_NNNN_Flat_Quoted)
+add_layout("nnnn-tuple-tree-layout", Layout_NNNN_Tuple_Tree)
 add_layout("nnnn-tuple-tree", Layout_NNNN_Tuple_Tree)
 add_layout("nnnn-uuid-quadtree", Layout_NNNN_UUID_Quadtree)
-- 
2.43.0


From 09a19c59e83bbacaa53a3fea4ea5a90b6f86a4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 37/76] fix: config file for layout without parameters raised
 AttributeError

---
 ocfl/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/layout.py b/ocfl/layout.py
index 28d5ab4..42956cd 100644
--- a/ocfl/layout.py
+++ b/ocfl/layout.py
@@ -203,7 +203,7 @@ class Layout:
         elif config.get("extensionName") != self.NAME:
             raise LayoutException("Storage root extension config extensionName is %s, expected %s" % (config.get("extensionName"), self.NAME))
         # Read and check the parameters (ignore any extra params)
-        for key, method in self.PARAMS.items():
+        for key, method in (self.PARAMS or {}).items():
             method(config.get(key))
         # Finally, check full config
         self.check_full_config()
-- 
2.43.0


From 58813479ca2d790f773b9f515b63150a13736d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 38/76] fix: initialize ignored the spec_version the storage
 root was set up with

---
 ocfl/storage_root.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 7108bc4..d814b73 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -101,6 +101,8 @@ class StorageRoot():
         """
         if spec_version is None and self.spec_version is None:
             spec_version = default
+        elif spec_version is None:
+            spec_version = self.spec_version
         if spec_version not in SPEC_VERSIONS_SUPPORTED:
             raise StorageRootException("Unsupported OCFL specification version %s requested" % (spec_version))
         self.spec_version = spec_version
-- 
2.43.0


From e17b5ae9319c4bf3f77ec8b9a8c48ec8df17d105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 39/76] fix: layout and parameter errors escaped as other than
 StorageRootException

---
 ocfl/storage_root.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index d814b73..aac1ca2 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -16,6 +16,7 @@ from .validator import Validator
 from .validation_logger import ValidationLogger
 
 # Specific layouts
+from .layout import LayoutException
 from .layout_registry import get_layout, layout_is_supported
 
 
@@ -137,6 +138,8 @@ class StorageRoot():
         if the layout is not set.
         """
         if not self._layout and self.layout_name is not None:
+            if not layout_is_supported(self.layout_name):
+                raise StorageRootException("Unsupported storage root layout %s" % (self.layout_name))
             self._layout = get_layout(self.layout_name)
         return self._layout
 
@@ -174,7 +177,12 @@ class StorageRoot():
         if self.layout is None:
             self.open_root_fs()
             self.check_root_structure()
-        return self.layout.identifier_to_path(identifier)
+            if self.layout is None:
+                raise StorageRootException("Storage root %s has no layout, cannot determine object path" % (self.root))
+        try:
+            return self.layout.identifier_to_path(identifier)
+        except Exception as e:
+            raise StorageRootException("Cannot determine path for object %s (%s)" % (identifier, str(e)))
 
     def initialize(self, spec_version=None, layout_params=None):
         """Create and initialize a new OCFL Storage Root.
@@ -195,11 +203,19 @@ class StorageRoot():
                 config = json.loads(layout_params)
             except Exception as e:
                 raise StorageRootException("Bad layout params supplied: %s" % (str(e)))
-            self.layout.check_and_set_layout_params(config=config, require_extension_name=False)
+            if not isinstance(config, dict):
+                raise StorageRootException("Bad layout params supplied: not a JSON object")
+            try:
+                self.layout.check_and_set_layout_params(config=config, require_extension_name=False)
+            except LayoutException as e:
+                raise StorageRootException("Bad layout params supplied: %s" % (str(e)))
         self.check_spec_version(spec_version=spec_version)
         # Now create the storage root
         (parent, root_dir) = os.path.split(self.root)
-        parent_fs = fsw_openfs(parent)
+        try:
+            parent_fs = fsw_openfs(parent)
+        except FileNotFoundError as e:
+            raise StorageRootException("Failed to open parent of OCFL storage root %s (%s)" % (self.root, str(e)))
         if parent_fs.exists(root_dir):
             raise StorageRootException("OCFL storage root %s already exists, aborting!" % (self.root))
         parent_fs.makedir(root_dir)
@@ -266,7 +282,10 @@ class StorageRoot():
             else:
                 logging.warning("Non-canonical layout name %s, should be %s", self.layout_name, self.layout.NAME)
             # Is there a corresponding extensions dir with params in config.json?
-            self.layout.read_layout_params(root_fs=self.root_fs)
+            try:
+                self.layout.read_layout_params(root_fs=self.root_fs)
+            except LayoutException as e:
+                raise StorageRootException("E070a", root=self.root, layout_name=self.layout_name, message=str(e))
         # Other files are allowed...
         return True
 
-- 
2.43.0


From b0d4df9d542106a52bdee9bacb4447bdd8c0de84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 40/76] fix: flat quoted layout mapped . and .. to paths
 outside or at the root

---
 ocfl/layout_nnnn_flat_quoted.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocfl/layout_nnnn_flat_quoted.py b/ocfl/layout_nnnn_flat_quoted.py
index 3b1c92a..10b5bf3 100644
--- a/ocfl/layout_nnnn_flat_quoted.py
+++ b/ocfl/layout_nnnn_flat_quoted.py
@@ -23,12 +23,13 @@ class Layout_NNNN_Flat_Quoted(Layout):
 
         Raises:
             LayoutException: if the identifier cannot be converted to a valid
-            object path. Currently just a check for blank
+            object path. Blank, '.' and '..' are not changed by quoting and are
+            not allowed
 
         Uses Layout.encode() to generate a safe directory name from any
         identifier. Length is not checked but could cause operating system
         errors.
         """
-        if identifier == "":
+        if identifier in ("", ".", ".."):
             raise LayoutException("Identifier '%s' unsafe for %s layout" % (identifier, self.NAME))
         return self.encode(identifier)
-- 
2.43.0


From 1ac964c2e8a9c49601093bf30c3f66d367d3a710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 41/76] fix: uuid layout accepted identifiers with trailing
 newline or non ASCII digits

---
 ocfl/layout_nnnn_uuid_quadtree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/layout_nnnn_uuid_quadtree.py b/ocfl/layout_nnnn_uuid_quadtree.py
index 7139738..4210f5f 100644
--- a/ocfl/layout_nnnn_uuid_quadtree.py
+++ b/ocfl/layout_nnnn_uuid_quadtree.py
@@ -83,9 +83,9 @@ class Layout_NNNN_UUID_Quadtree(Layout):
         if identifier.startswith(self.prefix):
             identifier = identifier[len(self.prefix):]
         else:
-            raise Exception("UUIDQuadtree identifier %s does not start with prefix %s" % (identifier, self.prefix))
-        match = re.match(r"""([\da-f]{4})([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})([\da-f]{4})([\da-f]{4})$""", identifier)
+            raise LayoutException("UUIDQuadtree identifier %s does not start with prefix %s" % (identifier, self.prefix))
+        match = re.fullmatch(r"""([\da-f]{4})([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})\-([\da-f]{4})([\da-f]{4})([\da-f]{4})""", identifier, re.ASCII)
         if not match:
-            raise Exception("UUIDQuadtree identifier %s not valid" % (identifier))
+            raise LayoutException("UUIDQuadtree identifier %s not valid" % (identifier))
         return os.path.join(match.group(1), match.group(2), match.group(3), match.group(4),
                             match.group(5), match.group(6), match.group(7), match.group(8))
-- 
2.43.0


From 15ac2a2ae354976ff86192f0373f053f0dde5aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 42/76] fix: strip_root removed root that was only a string
 prefix of a path component

---
 ocfl/layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/layout.py b/ocfl/layout.py
index 42956cd..0a426b2 100644
--- a/ocfl/layout.py
+++ b/ocfl/layout.py
@@ -94,7 +94,7 @@ class Layout:
                 root cannot be stripped from it
         """
         root = root.rstrip(os.sep)  # ditch any trailing path separator
-        if os.path.commonprefix((path, root)) == root:
+        if root == "" or path == root or path.startswith(root + os.sep):
             return os.path.relpath(path, start=root)
         raise LayoutException("Path %s is not in root %s" % (path, root))
 
-- 
2.43.0


From 25ab59c5d9df725d2bdcab6ea838ad628ada84de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 43/76] fix: object declaration with extra trailing text was
 recognized in storage root

---
 ocfl/storage_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index aac1ca2..c65e865 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -342,7 +342,7 @@ class StorageRoot():
                     self.traversal_error("E003d", path=dirpath)
                 elif len(zero_eqs) == 1:
                     declaration = zero_eqs[0]
-                    match = re.match(r"""0=ocfl_object_(\d+\.\d+)""", declaration)
+                    match = re.fullmatch(r"""0=ocfl_object_(\d+\.\d+)""", declaration)
                     if match and match.group(1) in SPEC_VERSIONS_SUPPORTED:
                         yield dirpath.lstrip("/")
                     elif match:
-- 
2.43.0


From 02d88ccd2feca7aba2c7846af406444b9e4f2530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:07 +0000
Subject: [PATCH 44/76] fix: many declarations in storage root raised
 NamasteException

---
 ocfl/object_utils.py | 2 +-
 ocfl/storage_root.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/object_utils.py b/ocfl/object_utils.py
index dfc98ed..779395c 100755
--- a/ocfl/object_utils.py
+++ b/ocfl/object_utils.py
@@ -144,7 +144,7 @@ def find_path_type(path):
         if fsw.isdir(filename):
             return "directory that could not be opened as a filesystem, this should not happen"  # pragma: no cover
         return "file"
-    namastes = find_namastes(0, fsw=fsw)
+    namastes = find_namastes(0, fsw=fsw, limit=None)
     if len(namastes) == 0:
         return "no 0= declaration file"
     # Look at the first 0= Namaste file that is of OCFL form to determine type, if there are
diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index c65e865..def0d93 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -251,7 +251,7 @@ class StorageRoot():
         Assumes that self.root_fs filesystem is available to read from.
         """
         # Storage root declaration
-        namastes = find_namastes(0, fsw=self.root_fs)
+        namastes = find_namastes(0, fsw=self.root_fs, limit=None)
         if len(namastes) == 0:
             raise StorageRootException("E069a", root=self.root)
         if len(namastes) > 1:
-- 
2.43.0


From 7330f31876722a0a530f9ff24511b7827b0aec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:07 +0000
Subject: [PATCH 45/76] fix: object could be added inside another object or
 over reserved names

---
 ocfl/storage_root.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index def0d93..f637538 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -482,6 +482,29 @@ class StorageRoot():
             valid = False
         return valid
 
+    def check_object_path(self, path):
+        """Check path is suitable for an object to be added to this storage root.
+
+        Arguments:
+            path (str): object path relative to the storage root
+
+        Raises:
+            StorageRootException: if the path is not inside the storage root, is
+                reserved for files of the storage root itself, or is within
+                another object (or other directory that includes files)
+        """
+        elements = path.split("/")
+        if any(element in ("", ".", "..") for element in elements):
+            raise StorageRootException("Object path %s is not a good path within the storage root" % (path))
+        if elements[0] in ("extensions", self.layout_file) or elements[0].startswith("0="):
+            raise StorageRootException("Object path %s conflicts with files of the storage root" % (path))
+        for n in range(1, len(elements)):
+            parent = "/".join(elements[:n])
+            if not self.root_fs.exists(parent):
+                break
+            if not self.root_fs.isdir(parent) or any(e["type"] != "directory" for e in self.root_fs.listdir(parent)):
+                raise StorageRootException("Object path %s is within another object or file at %s" % (path, parent))
+
     def add(self, object_path):
         """Add pre-constructed object from object_path.
 
@@ -502,6 +525,7 @@ class StorageRoot():
         identifier = inventory.id
         # Now copy
         path = self.object_path(identifier)
+        self.check_object_path(path)
         if self.root_fs.exists(path):
             raise StorageRootException("Add object failed because destination path %s already exists" % (path))
         logging.debug("Copying from %s to %s", object_path, os.path.join(self.root, path))
-- 
2.43.0


From 36a2df565fd6e44e70c9f96feec76c8cbdfe5967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:07 +0000
Subject: [PATCH 46/76] fix: root inventory that is not a file made reading
 fail with OSError

---
 ocfl/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 7cca50c..6361665 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -828,7 +828,7 @@ class Object():  # pylint: disable=too-many-public-methods
         try:
             with self.obj_fs.open(INVENTORY_FILENAME, "r", encoding="utf-8") as fh:
                 inventory = Inventory(json.load(fh))
-        except (FileNotFoundError, ValueError, InventoryException) as e:
+        except (OSError, ValueError, RecursionError, InventoryException) as e:
             raise ObjectException("Root inventory cannot be read (%s)" % (str(e)))
         # Validate
         iv = InventoryValidator(lax_digests=self.lax_digests)
-- 
2.43.0


From 3c0abdc8737bf9651e68f9e2c2636a7595732393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 47/76] fix: directory without object declaration could be
 added to storage root

---
 ocfl/storage_root.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index f637538..bf1fda9 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -523,6 +523,9 @@ class StorageRoot():
         o = Object(path=object_path, lax_digests=self.lax_digests)
         inventory = o.parse_inventory()
         identifier = inventory.id
+        declarations = [namaste.filename for namaste in find_namastes(0, fsw=o.obj_fs, limit=None)]
+        if declarations not in [["0=ocfl_object_" + version] for version in SPEC_VERSIONS_SUPPORTED]:
+            raise StorageRootException("Add object failed because %s does not have one object declaration" % (object_path))
         # Now copy
         path = self.object_path(identifier)
         self.check_object_path(path)
-- 
2.43.0


From c083802a76497fc4b8afb450d64cf0d0f8add6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 48/76] fix: incomplete copy of object into storage root could
 look complete

---
 ocfl/fsw.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocfl/fsw.py b/ocfl/fsw.py
index 672f6ba..5e298b2 100644
--- a/ocfl/fsw.py
+++ b/ocfl/fsw.py
@@ -402,7 +402,9 @@ def fsw_copydir(src_fs, src_path, dst_fs, dst_path):
     if dst_fs.exists(dst_path):
         raise FswException("Destination directory (%s) for copydir already exists!" % (dst_path))
     dst_fs.makedirs(dst_path)
-    for filepath in fsw_walk_files(src_fs, src_path):
+    # Copy in reverse order so that files at the top level, such as the object
+    # declaration, are copied only when everything below has been copied
+    for filepath in reversed(fsw_walk_files(src_fs, src_path)):
         src_filepath = os.path.join(src_path, filepath)
         dst_filepath = os.path.join(dst_path, filepath)
         dst_filedir = os.path.dirname(dst_filepath)
-- 
2.43.0


From e97feb7e2031b885f084e2b72fee30c85b03ea0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 49/76] fix: ocfl-validate.py gave no result for storage roots

---
 ocfl-validate.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ocfl-validate.py b/ocfl-validate.py
index cb055b9..e11ec89 100755
--- a/ocfl-validate.py
+++ b/ocfl-validate.py
@@ -74,9 +74,17 @@ def do_validation(args):
             logging.debug("Validating OCFL Storage Root at %s", path)
             store = ocfl.StorageRoot(root=path,
                                      lax_digests=args.lax_digests)
-            if store.validate(log_warnings=log_warnings,
-                              log_errors=log_errors,
-                              check_digests=not args.no_check_digests):
+            valid = store.validate(log_warnings=log_warnings,
+                                   log_errors=log_errors,
+                                   check_digests=not args.no_check_digests)
+            if not args.very_quiet:
+                for (dummy_dirpath, messages) in store.errors:
+                    print(messages)
+            messages = str(store.log)
+            if messages != "":
+                print(messages)
+            print("OCFL Storage Root at %s is %s" % (path, "VALID" if valid else "INVALID"))
+            if valid:
                 num_good += 1
         elif path_type == "file":
             logging.debug("Validating separate OCFL Inventory at %s", path)
-- 
2.43.0


From 863a068379e45db7639a42deeb154e91619aa3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 50/76] fix: ocfl-object.py validate exited with success for
 invalid objects

---
 ocfl-object.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocfl-object.py b/ocfl-object.py
index 5fefeaf..9ad7160 100755
--- a/ocfl-object.py
+++ b/ocfl-object.py
@@ -191,7 +191,8 @@ def do_object_operation(args):
         print("Object tree" + (" for %s" % (obj.id) if obj.id is not None else ""))
         print(obj.tree(objdir=args.objdir))
     elif args.cmd == "validate":
-        validate_object(obj, objdir=args.objdir)
+        if not validate_object(obj, objdir=args.objdir):
+            sys.exit(1)
     elif args.cmd == "extract":
         if args.logical_path:
             if args.dstbag:
-- 
2.43.0


From 3f38b5210f3551d3d222cca62be1c7f70430de18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 51/76] fix: ocfl-object.py gave traceback for refused
 operations

---
 ocfl-object.py | 4 +++-
 ocfl/bagger.py | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ocfl-object.py b/ocfl-object.py
index 9ad7160..f218f53 100755
--- a/ocfl-object.py
+++ b/ocfl-object.py
@@ -10,6 +10,7 @@ import logging
 import sys
 
 import ocfl
+from ocfl.fsw import FswException
 from ocfl.command_line_utils import add_version_arg, check_version_arg, \
     add_version_metadata_args, add_object_args, add_verbosity_args, \
     check_verbosity_args, validate_object
@@ -222,6 +223,7 @@ if __name__ == "__main__":
     try:
         aargs = parse_arguments()
         do_object_operation(aargs)
-    except (FatalError, ocfl.ObjectException) as e:
+    except (FatalError, ocfl.ObjectException, ocfl.NewVersionException, ocfl.InventoryException,
+            ocfl.BaggerError, FswException, OSError, ValueError) as e:
         logging.error(str(e))
         sys.exit(1)
diff --git a/ocfl/bagger.py b/ocfl/bagger.py
index 94b7bb6..9a5b004 100644
--- a/ocfl/bagger.py
+++ b/ocfl/bagger.py
@@ -46,7 +46,10 @@ def bag_as_source(srcbag, metadata):
     """
     # Avoid default noisy output from bagit
     logging.getLogger('bagit').setLevel(logging.ERROR)
-    bag = bagit.Bag(srcbag)
+    try:
+        bag = bagit.Bag(srcbag)
+    except bagit.BagError as e:
+        raise BaggerError("Source Bagit bag at %s cannot be opened (%s)" % (srcbag, str(e)))
     if not bag.is_valid():
         raise BaggerError("Source Bagit bag at %s is not valid" % (srcbag))
     # Local arguments override but otherwise take metadata from bag-info.txt
-- 
2.43.0


From 4f2186ac954419afaffc2d1cb4165aed8765cb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 52/76] fix: update from bag ignored an identifier that does
 not match the object

---
 ocfl-object.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocfl-object.py b/ocfl-object.py
index f218f53..85f0044 100755
--- a/ocfl-object.py
+++ b/ocfl-object.py
@@ -182,6 +182,10 @@ def do_object_operation(args):
                                         address=args.address)
         if args.srcbag is not None:
             srcdir = ocfl.bag_as_source(args.srcbag, metadata)
+            if metadata.id is not None:
+                objid = ocfl.Object(path=args.objdir, lax_digests=args.lax_digests).id_from_inventory(failure_value=None)
+                if objid is not None and objid != metadata.id:
+                    raise FatalError("Identifier of object (%s) and identifier from Bagit bag (%s) do not match!" % (objid, metadata.id))
         elif args.srcdir is None:
             raise FatalError("Must specify either --srcdir or --srcbag containing new version files when updating an OCFL object!")
         inv = obj.add_version_with_content(objdir=args.objdir,
-- 
2.43.0


From 81e3165f870c130245b7d9a21a215077c2a33df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 53/76] fix: ocfl-root.py exit status, show of object in root
 and validate-object

---
 ocfl-root.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/ocfl-root.py b/ocfl-root.py
index 810b33d..5b480ed 100755
--- a/ocfl-root.py
+++ b/ocfl-root.py
@@ -7,7 +7,7 @@ import sys
 
 import ocfl  # pylint: disable=import-self; this isn"t actually self import
 from ocfl.command_line_utils import add_version_arg, add_verbosity_args, \
-    check_version_arg, check_verbosity_args
+    check_version_arg, check_verbosity_args, validate_object
 from ocfl.constants import DEFAULT_SPEC_VERSION
 
 
@@ -58,7 +58,7 @@ def parse_arguments():
                                  help="validate each object in the storage root (MAY TAKE TIME)")
     validate_parser.add_argument("--check-digests", action="store_true", default=False,
                                  help="if validating each object, also check all digest (MAY TAKE LOTS OF TIME)")
-    validate_parser.add_argument("--max_errors", default=100,
+    validate_parser.add_argument("--max_errors", default=100, type=int,
                                  help="maximum number of errors to record/show")
 
     add_parser = subparsers.add_parser("add", help="Add object at --src to the storage root")
@@ -88,6 +88,7 @@ def parse_arguments():
                              help="identifier of object")
 
     validate_object_parser = subparsers.add_parser("validate-object", help="Validate an OCFL object")
+    add_common_args(validate_object_parser)
     validate_object_parser.add_argument("--id", default=None,
                                         help="identifier of object")
 
@@ -107,6 +108,8 @@ def validate(store, args):
       validate_objects - True to validate each object in tree
       check_digests - True to check all digests for each object
       max_error - Maximum number of error to show
+
+    Returns True if valid, False otherwise.
     """
     valid = store.validate(log_warnings=not args.quiet,
                            validate_objects=args.validate_objects,
@@ -128,6 +131,7 @@ def validate(store, args):
         print("Storage root %s is VALID" % (store.root))
     else:
         print("Storage root %s is INVALID" % (store.root))
+    return valid
 
 
 def get_storage_root(args):
@@ -157,15 +161,16 @@ def do_store_operation(args):
             print("%s -- id=%s" % (dirpath, identifier))
         print("Found %d OCFL Objects under root %s" % (store.num_objects, store.root))
     elif args.cmd == "validate":
-        validate(store, args)
+        if not validate(store, args):
+            sys.exit(1)
     elif args.cmd == "add":
         if not args.src:
             raise ocfl.StorageRootException("Must specify object path with --src")
         (identifier, path) = store.add(object_path=args.src)
         print("Added object %s at path %s" % (identifier, path))
     elif args.cmd == "purge":
-        logging.error("purge not implemented")
-    elif args.cmd in ("show", "path", "validate_object"):
+        raise ocfl.StorageRootException("purge not implemented")
+    elif args.cmd in ("show", "path", "validate-object"):
         if not args.id:
             raise ocfl.StorageRootException("Must specify id to act on an object in the store")
         objdir = store.object_path(args.id)
@@ -176,11 +181,12 @@ def do_store_operation(args):
             else:
                 print("Path to %s inside root %s is %s" % (args.id, store.root, objdir))
         else:
-            obj = ocfl.Object(identifier=args.id)
+            obj = ocfl.Object(identifier=args.id, lax_digests=args.lax_digests)
+            objdir = os.path.join(store.root, objdir)
             if args.cmd == "show":
                 logging.warning("Object tree\n%s", obj.tree(objdir=objdir))
-            else:
-                logging.error("validate not implemented")
+            elif not validate_object(obj, objdir, log_warnings=not args.quiet):
+                sys.exit(1)
     else:
         logging.error("Unrecognized command!")
 
@@ -189,6 +195,6 @@ if __name__ == "__main__":
     try:
         aargs = parse_arguments()
         do_store_operation(aargs)
-    except (ocfl.StorageRootException, ocfl.ObjectException) as e:
+    except (ocfl.StorageRootException, ocfl.ObjectException, OSError) as e:
         logging.error(str(e))
         sys.exit(1)
-- 
2.43.0


From 5b572b08101e4374ec8a20c987488cb183c29e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 54/76] fix: ocfl-sidecar.py ignored the digest algorithm of
 the inventory

---
 ocfl-sidecar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl-sidecar.py b/ocfl-sidecar.py
index 1d6e4ed..6327389 100755
--- a/ocfl-sidecar.py
+++ b/ocfl-sidecar.py
@@ -46,7 +46,7 @@ def create_sidecar(args, directory):
             obj.digest_algorithm = args.digest
         else:  # Read inventory in the hope of setting digest_algoritm
             try:
-                obj.parse_inventory()
+                obj.digest_algorithm = obj.parse_inventory().digest_algorithm
             except ocfl.ObjectException as e:
                 logging.warning("Failed to read inventory in directory %s (%s)", directory, e)
         sidecar = obj.write_inventory_sidecar()
-- 
2.43.0


From 4c6aa2e647c163c7717555d2772602ef2eeb5f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 55/76] fix: validation of inventory file in missing directory
 raised exception

---
 ocfl/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 6361665..61363eb 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -697,7 +697,7 @@ class Object():  # pylint: disable=too-many-public-methods
             (inv_dir, inv_file) = os.path.split(path)
             validator.obj_fs = fsw_openfs(inv_dir, create=False)
             validator.validate_inventory(inv_file, where="standalone", force_spec_version=force_spec_version)
-        except FswException:
+        except (FswException, FileNotFoundError):
             validator.log.error("E033", where="standalone", explanation="failed to open directory")
         except ValidatorAbortException:
             pass
-- 
2.43.0


From 2d473ce2bb5f1052f2290b6024ce543da290be85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:13 +0000
Subject: [PATCH 56/76] fix: fixity from old digest algorithm lost if fixity
 block exists already

---
 ocfl/object.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 61363eb..8a4a4c1 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -492,10 +492,11 @@ class Object():  # pylint: disable=too-many-public-methods
             # Not explicit, carry forward from previous version. Only change will
             # be adding old digest information if we are changing digestAlgorithm
             fixity = old_fixity.copy()
-            if digest_algorithm != old_digest_algorithm and old_digest_algorithm not in old_fixity:
-                # Add old manifest digests to fixity block
+            if digest_algorithm != old_digest_algorithm:
+                # Add old manifest digests to fixity block, these cover all content so
+                # no values from any existing block for this algorithm are lost
                 inventory.add_fixity_type(digest_algorithm=old_digest_algorithm,
-                                          map=inventory.manifest.copy())
+                                          map=copy.deepcopy(inventory.manifest))
                 fixity.add(old_digest_algorithm)
         else:
             # Fixity to be stored is explicit, may be a change
-- 
2.43.0


From 08f4af69a0a90bd86c704574a2056575a95831fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:13 +0000
Subject: [PATCH 57/76] fix: source that is not a bag gave traceback, keep
 BagError exception

---
 ocfl-object.py | 3 ++-
 ocfl/bagger.py | 5 +----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/ocfl-object.py b/ocfl-object.py
index 85f0044..611eb99 100755
--- a/ocfl-object.py
+++ b/ocfl-object.py
@@ -9,6 +9,7 @@ import argparse
 import logging
 import sys
 
+from bagit import BagError
 import ocfl
 from ocfl.fsw import FswException
 from ocfl.command_line_utils import add_version_arg, check_version_arg, \
@@ -228,6 +229,6 @@ if __name__ == "__main__":
         aargs = parse_arguments()
         do_object_operation(aargs)
     except (FatalError, ocfl.ObjectException, ocfl.NewVersionException, ocfl.InventoryException,
-            ocfl.BaggerError, FswException, OSError, ValueError) as e:
+            ocfl.BaggerError, BagError, FswException, OSError, ValueError) as e:
         logging.error(str(e))
         sys.exit(1)
diff --git a/ocfl/bagger.py b/ocfl/bagger.py
index 9a5b004..94b7bb6 100644
--- a/ocfl/bagger.py
+++ b/ocfl/bagger.py
@@ -46,10 +46,7 @@ def bag_as_source(srcbag, metadata):
     """
     # Avoid default noisy output from bagit
     logging.getLogger('bagit').setLevel(logging.ERROR)
-    try:
-        bag = bagit.Bag(srcbag)
-    except bagit.BagError as e:
-        raise BaggerError("Source Bagit bag at %s cannot be opened (%s)" % (srcbag, str(e)))
+    bag = bagit.Bag(srcbag)
     if not bag.is_valid():
         raise BaggerError("Source Bagit bag at %s is not valid" % (srcbag))
     # Local arguments override but otherwise take metadata from bag-info.txt
-- 
2.43.0


From 1fef4e38b0da083baf191abbfcceb7d49edbd5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 58/76] fix: objects with invalid metadata could be written

---
 ocfl/object.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index 8a4a4c1..1d450fa 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -236,6 +236,20 @@ class Object():  # pylint: disable=too-many-public-methods
         """NAMASTE object declaration Namaste object."""
         return Namaste(0, "ocfl_object_" + self.spec_version)
 
+    def check_inventory(self, inventory):
+        """Check that inventory about to be written is valid.
+
+        Arguments:
+            inventory (ocfl.Inventory): inventory to check
+
+        Raises:
+            ocfl.ObjectException: if the inventory is not valid. All digest
+                algorithms are allowed
+        """
+        iv = InventoryValidator(lax_digests=True)
+        if not iv.validate(inventory=inventory.data):
+            raise ObjectException("Inventory to be written is not valid (%s)" % (", ".join(sorted(iv.log.codes))))
+
     def write_object_declaration(self):
         """Write NAMASTE object declaration.
 
@@ -334,6 +348,7 @@ class Object():  # pylint: disable=too-many-public-methods
             # Add content, everything in srcdir
             nv.add_from_srcdir()
             inventory = nv.inventory
+            self.check_inventory(inventory)
             num_versions += 1
             if objdir is not None:
                 self.write_inventory_and_sidecar(inventory, inventory.head)
@@ -380,6 +395,7 @@ class Object():  # pylint: disable=too-many-public-methods
         # Add content, everything in srcdir
         nv.add_from_srcdir()
         inventory = nv.inventory
+        self.check_inventory(inventory)
         # If objdir is not set then don't write anything, just return inventory
         if objdir is None:
             return inventory
@@ -554,6 +570,7 @@ class Object():  # pylint: disable=too-many-public-methods
             ocfl.Inventory: of the latest version just written
         """
         inventory = new_version.inventory
+        self.check_inventory(inventory)
         # Delete old root inventory sidecar if we changed digest algorithm
         if (new_version.old_digest_algorithm is not None
                 and inventory.digest_algorithm != new_version.old_digest_algorithm):
-- 
2.43.0


From 84ca79df2ba7e6aab08f224dcfe8620fef275495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 59/76] fix: extract to destination that is a file raised
 FileExistsError

---
 ocfl/object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index 1d450fa..54f01ea 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -771,6 +771,8 @@ class Object():  # pylint: disable=too-many-public-methods
         if parent_fs.isdir(dir):
             if len(parent_fs.listdir(dir, detail=False)) > 0:
                 raise ObjectException("Target directory %s already exists and is not empty, aborting!" % (dstdir))
+        elif parent_fs.exists(dir):
+            raise ObjectException("Target %s already exists and is not a directory, aborting!" % (dstdir))
         else:  # Make dstdir
             parent_fs.makedir(dir)
         dst_fs = fsw_opendir_as_fs(parent_fs, dir)  # Open a sub-filesystem as our destination
-- 
2.43.0


From acad855655f869045e2a67ab9c326eb80d810a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 60/76] fix: extract_file created destination for unknown
 logical path

---
 ocfl/object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/object.py b/ocfl/object.py
index 54f01ea..7f524d6 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -808,6 +808,8 @@ class Object():  # pylint: disable=too-many-public-methods
         exist.
         """
         inv, version = self._extract_setup(objdir, version)
+        if logical_path not in inv.version(version).logical_paths:
+            raise ObjectException("Logical path %s not found in %s" % (logical_path, version))
         # Check the destination
         try:
             dst_fs = fsw_openfs(dstdir, create=True)
-- 
2.43.0


From ac3b869da946cc329725913b9e43fb0797403d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:14 +0000
Subject: [PATCH 61/76] fix: commit of a staged version that is refused had
 removed the inventory sidecar

---
 ocfl/object.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 7f524d6..2cb5b48 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -571,10 +571,6 @@ class Object():  # pylint: disable=too-many-public-methods
         """
         inventory = new_version.inventory
         self.check_inventory(inventory)
-        # Delete old root inventory sidecar if we changed digest algorithm
-        if (new_version.old_digest_algorithm is not None
-                and inventory.digest_algorithm != new_version.old_digest_algorithm):
-            self.obj_fs.rm(INVENTORY_FILENAME + "." + new_version.old_digest_algorithm)
         # Make new version directory
         self.obj_fs.makedir(inventory.head)
         # Copy files into this version
@@ -583,6 +579,10 @@ class Object():  # pylint: disable=too-many-public-methods
         # Write inventory in both root and head version
         self.write_inventory_and_sidecar(inventory, inventory.head)
         self.write_inventory_and_sidecar(inventory)
+        # Delete old root inventory sidecar if we changed digest algorithm
+        if (new_version.old_digest_algorithm is not None
+                and inventory.digest_algorithm != new_version.old_digest_algorithm):
+            self.obj_fs.rm(INVENTORY_FILENAME + "." + new_version.old_digest_algorithm)
         logging.info("Updated OCFL object %s by adding %s", inventory.id, inventory.head)
         return inventory
 
-- 
2.43.0


From 082f84a1fe5d8b546c6dc06416f9ba5fea6f673b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:11 +0000
Subject: [PATCH 62/76] fix: update with unsupported digest algorithm left
 partial version

---
 ocfl/object.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 2cb5b48..4b334dc 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -13,7 +13,7 @@ import re
 import logging
 
 from .constants import INVENTORY_FILENAME, DEFAULT_SPEC_VERSION, DEFAULT_CONTENT_DIRECTORY
-from .digest import file_digest
+from .digest import digest_regex, file_digest
 from .inventory import Inventory, InventoryException
 from .inventory_validator import InventoryValidator
 from .new_version import NewVersion
@@ -244,8 +244,12 @@ class Object():  # pylint: disable=too-many-public-methods
 
         Raises:
             ocfl.ObjectException: if the inventory is not valid. All digest
-                algorithms are allowed
+                algorithms that are supported are allowed
         """
+        try:
+            digest_regex(inventory.digest_algorithm)
+        except ValueError as e:
+            raise ObjectException("Inventory to be written is not valid (%s)" % (e))
         iv = InventoryValidator(lax_digests=True)
         if not iv.validate(inventory=inventory.data):
             raise ObjectException("Inventory to be written is not valid (%s)" % (", ".join(sorted(iv.log.codes))))
-- 
2.43.0


From 8c10704d0fc1651f1890116b34bc3920135af56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:27 +0000
Subject: [PATCH 63/76] fix: refuse blank identifier in hash and id n-tuple
 layout

---
 ocfl/layout_0003_hash_and_id_n_tuple.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ocfl/layout_0003_hash_and_id_n_tuple.py b/ocfl/layout_0003_hash_and_id_n_tuple.py
index 8fdbd78..dba6a22 100644
--- a/ocfl/layout_0003_hash_and_id_n_tuple.py
+++ b/ocfl/layout_0003_hash_and_id_n_tuple.py
@@ -183,7 +183,13 @@ class Layout_0003_Hash_And_Id_N_Tuple(Layout):
             then it is tuncated at 100 characters and then "-" and the digest
             appended (so it would be 165 chars with sha256).
         6. The encapsulation directory name is joined to the end of the path.
+
+        Raises:
+            LayoutException: if the identifier is blank and hence there would be
+                no encapsulation directory
         """
+        if identifier == "":
+            raise LayoutException("Identifier '%s' unsafe for %s layout" % (identifier, self.NAME))
         return _id_to_path(identifier=identifier,
                            digest_algorithm=self.digest_algorithm,
                            tuple_size=self.tuple_size,
-- 
2.43.0


From 9b62a25be86635b59ec2dcfe99a9b53062c4fb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:27 +0000
Subject: [PATCH 64/76] fix: refuse booleans as integer layout parameters

---
 ocfl/layout_0003_hash_and_id_n_tuple.py | 4 ++--
 ocfl/layout_nnnn_tuple_tree.py          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocfl/layout_0003_hash_and_id_n_tuple.py b/ocfl/layout_0003_hash_and_id_n_tuple.py
index dba6a22..bd0be1d 100644
--- a/ocfl/layout_0003_hash_and_id_n_tuple.py
+++ b/ocfl/layout_0003_hash_and_id_n_tuple.py
@@ -110,7 +110,7 @@ class Layout_0003_Hash_And_Id_N_Tuple(Layout):
         """
         if value is None:
             raise LayoutException("tupleSize parameter must be specified")
-        if not isinstance(value, int) or value < 0 or value > 32:
+        if not isinstance(value, int) or isinstance(value, bool) or value < 0 or value > 32:
             raise LayoutException("tupleSize parameter must be aninteger between 0 and 32 inclusive")
         self.tuple_size = value
 
@@ -134,7 +134,7 @@ class Layout_0003_Hash_And_Id_N_Tuple(Layout):
         """
         if value is None:
             raise LayoutException("numberOfTuples parameter must be specified")
-        if not isinstance(value, int) or value < 0 or value > 32:
+        if not isinstance(value, int) or isinstance(value, bool) or value < 0 or value > 32:
             raise LayoutException("numberOfTuples parameter must be aninteger between 0 and 32 inclusive")
         self.number_of_tuples = value
 
diff --git a/ocfl/layout_nnnn_tuple_tree.py b/ocfl/layout_nnnn_tuple_tree.py
index 1b26994..ce98aa9 100644
--- a/ocfl/layout_nnnn_tuple_tree.py
+++ b/ocfl/layout_nnnn_tuple_tree.py
@@ -57,7 +57,7 @@ class Layout_NNNN_Tuple_Tree(Layout):
         """
         if value is None:
             raise LayoutException("tupleSize parameter must be specified")
-        if not isinstance(value, int) or value < 2 or value > 6:
+        if not isinstance(value, int) or isinstance(value, bool) or value < 2 or value > 6:
             raise LayoutException("tupleSize parameter must be an integer between 2 and 6 inclusive")
         self.tuple_size = value
 
-- 
2.43.0


From ab83a7473e84aa42be46a444a6cd674a8c1938b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:03 +0000
Subject: [PATCH 65/76] fix: use layout of storage root only once it has been
 read without error

---
 ocfl/storage_root.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index bf1fda9..f8fa2a2 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -274,18 +274,21 @@ class StorageRoot():
                                        namaste_file=namastes[0].filename)
         # Layout file (if present)
         if self.root_fs.exists(self.layout_file):
-            self.layout_name, self.layout_description = self.parse_layout_file()
-            if not layout_is_supported(self.layout_name):
-                raise StorageRootException("E071", root=self.root, layout_name=self.layout_name)
-            if self.layout.NAME == self.layout_name:
-                logging.info("Storage root layout is %s", self.layout_name)
+            layout_name, layout_description = self.parse_layout_file()
+            if not layout_is_supported(layout_name):
+                raise StorageRootException("E071", root=self.root, layout_name=layout_name)
+            layout = get_layout(layout_name)
+            if layout.NAME == layout_name:
+                logging.info("Storage root layout is %s", layout_name)
             else:
-                logging.warning("Non-canonical layout name %s, should be %s", self.layout_name, self.layout.NAME)
+                logging.warning("Non-canonical layout name %s, should be %s", layout_name, layout.NAME)
             # Is there a corresponding extensions dir with params in config.json?
             try:
-                self.layout.read_layout_params(root_fs=self.root_fs)
+                layout.read_layout_params(root_fs=self.root_fs)
             except LayoutException as e:
-                raise StorageRootException("E070a", root=self.root, layout_name=self.layout_name, message=str(e))
+                raise StorageRootException("E070a", root=self.root, layout_name=layout_name, message=str(e))
+            # All good, this replaces any layout set before
+            self.layout_name, self.layout_description, self._layout = layout_name, layout_description, layout
         # Other files are allowed...
         return True
 
-- 
2.43.0


From 4ccf23f2e045fcfb549b857bc8998de19640f1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:21 +0000
Subject: [PATCH 66/76] fix: refuse to add object with path element too long to
 be created

---
 ocfl/storage_root.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index f8fa2a2..8224343 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -499,6 +499,8 @@ class StorageRoot():
         elements = path.split("/")
         if any(element in ("", ".", "..") for element in elements):
             raise StorageRootException("Object path %s is not a good path within the storage root" % (path))
+        if any(len(element.encode("utf-8", "replace")) > 255 for element in elements):
+            raise StorageRootException("Object path %s has a directory name too long to be created" % (path))
         if elements[0] in ("extensions", self.layout_file) or elements[0].startswith("0="):
             raise StorageRootException("Object path %s conflicts with files of the storage root" % (path))
         for n in range(1, len(elements)):
-- 
2.43.0


From 135525067cc7d1a322208a69b19b285757912957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:21 +0000
Subject: [PATCH 67/76] fix: object declaration must be a file for object to be
 added

---
 ocfl/storage_root.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocfl/storage_root.py b/ocfl/storage_root.py
index 8224343..b29afd5 100644
--- a/ocfl/storage_root.py
+++ b/ocfl/storage_root.py
@@ -529,7 +529,8 @@ class StorageRoot():
         inventory = o.parse_inventory()
         identifier = inventory.id
         declarations = [namaste.filename for namaste in find_namastes(0, fsw=o.obj_fs, limit=None)]
-        if declarations not in [["0=ocfl_object_" + version] for version in SPEC_VERSIONS_SUPPORTED]:
+        if (declarations not in [["0=ocfl_object_" + version] for version in SPEC_VERSIONS_SUPPORTED]
+                or not o.obj_fs.isfile(declarations[0])):
             raise StorageRootException("Add object failed because %s does not have one object declaration" % (object_path))
         # Now copy
         path = self.object_path(identifier)
-- 
2.43.0


From 3677bc413ef76429eadc75192161063a6d327775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:02 +0000
Subject: [PATCH 68/76] fix: report the specification version a standalone
 inventory was validated against

---
 ocfl/object.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 4b334dc..4a1f255 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -718,7 +718,8 @@ class Object():  # pylint: disable=too-many-public-methods
         try:
             (inv_dir, inv_file) = os.path.split(path)
             validator.obj_fs = fsw_openfs(inv_dir, create=False)
-            validator.validate_inventory(inv_file, where="standalone", force_spec_version=force_spec_version)
+            _, inv_validator = validator.validate_inventory(inv_file, where="standalone", force_spec_version=force_spec_version)
+            validator.spec_version = inv_validator.spec_version
         except (FswException, FileNotFoundError):
             validator.log.error("E033", where="standalone", explanation="failed to open directory")
         except ValidatorAbortException:
-- 
2.43.0


From 89f6f068560f8366b1eaa8ad4d2c0f8ab55b3cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:56 +0000
Subject: [PATCH 69/76] fix: open local files given by an absolute path

---
 ocfl/fsw.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocfl/fsw.py b/ocfl/fsw.py
index 5e298b2..4043017 100644
--- a/ocfl/fsw.py
+++ b/ocfl/fsw.py
@@ -303,7 +303,9 @@ def fsw_openfile(filepath, mode="rb", fs=None, **kwargs):
 
     Returns open fs filehandle.
     """
-    fs = _fsw_or_local(fs)
+    if fs is None:
+        # Local path, may be absolute or relative to the current directory
+        return LocalFileSystem().open(os.path.abspath(filepath), mode, **kwargs)
     return fs.open(filepath, mode, **kwargs)
 
 
@@ -318,8 +320,7 @@ def fsw_readtext(filepath, fs=None):
     Returns:
         str: the text contents of the file.
     """
-    fs = _fsw_or_local(fs)
-    with fs.open(filepath, "r") as fh:
+    with fsw_openfile(filepath, "r", fs=fs) as fh:
         text = fh.read()
     return text
 
-- 
2.43.0


From 1a8a0049b231feb5cf036dd1d524d70fc13fe388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:42 +0000
Subject: [PATCH 70/76] fix: report copies that differ when changing digest
 algorithm as ObjectException

---
 ocfl/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 4a1f255..636287e 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -542,7 +542,7 @@ class Object():  # pylint: disable=too-many-public-methods
                     d = file_digest(file, digest_algorithm, fs=self.obj_fs)
                     if d != digest:
                         raise ObjectException("Failed sanity check - files %s and %s should have same %s digest but calculated %s and %s respectively" %
-                                              files[0], file, digest_algorithm, digest, d)
+                                              (files[0], file, digest_algorithm, digest, d))
                 new_manifest[digest] = manifest[old_digest]
             manifest = new_manifest
             # Now update all state blocks
-- 
2.43.0


From ae510ad345d16b59ef367c7299d555429593c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:50 +0000
Subject: [PATCH 71/76] fix: bag with a repeated metadata element as source

---
 ocfl/bagger.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/ocfl/bagger.py b/ocfl/bagger.py
index 94b7bb6..c949afe 100644
--- a/ocfl/bagger.py
+++ b/ocfl/bagger.py
@@ -24,6 +24,20 @@ class BaggerError(Exception):
     """Exception class for conditions that should abort with message."""
 
 
+def _tag_value(bag, tag):
+    """Value of tag in the bag metadata, the first value if repeated.
+
+    Arguments:
+        bag: a bagit.Bag object
+        tag: name of the tag in the bag metadata
+
+    Returns:
+        str: value of the tag
+    """
+    value = bag.info[tag]
+    return value[0] if isinstance(value, list) else value
+
+
 def bag_as_source(srcbag, metadata):
     """Validate and read metadata from srcbag as input.
 
@@ -51,15 +65,15 @@ def bag_as_source(srcbag, metadata):
         raise BaggerError("Source Bagit bag at %s is not valid" % (srcbag))
     # Local arguments override but otherwise take metadata from bag-info.txt
     if not metadata.id and "External-Identifier" in bag.info:
-        metadata.id = bag.info["External-Identifier"]
+        metadata.id = _tag_value(bag, "External-Identifier")
     if not metadata.created and "Bagging-Date" in bag.info:
-        metadata.created = bag.info["Bagging-Date"] + "T00:00:00Z"  # FIXME - timezone fudge
+        metadata.created = _tag_value(bag, "Bagging-Date") + "T00:00:00Z"  # FIXME - timezone fudge
     if not metadata.message and "External-Description" in bag.info:
-        metadata.message = bag.info["External-Description"]
+        metadata.message = _tag_value(bag, "External-Description")
     if not metadata.name and "Contact-Name" in bag.info:
-        metadata.name = bag.info["Contact-Name"]
+        metadata.name = _tag_value(bag, "Contact-Name")
     if not metadata.address and "Contact-Email" in bag.info:
-        metadata.address = "mailto:" + bag.info["Contact-Email"]
+        metadata.address = "mailto:" + _tag_value(bag, "Contact-Email")
     return os.path.join(srcbag, "data")
 
 
-- 
2.43.0


From 87015dfb9474ed146f486945161a42ca5d3e1165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:33 +0000
Subject: [PATCH 72/76] fix: version without files exported as a bag without
 manifest

---
 ocfl/bagger.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ocfl/bagger.py b/ocfl/bagger.py
index c949afe..2be6665 100644
--- a/ocfl/bagger.py
+++ b/ocfl/bagger.py
@@ -104,4 +104,10 @@ def bag_extracted_version(dst, metadata, set_bagging_date=False):
         tags["Bagging-Date"] = metadata.created.split("T")[0]
     # Avoid default noisy output from bagit
     logging.getLogger('bagit').setLevel(logging.ERROR)
-    bagit.make_bag(dst, bag_info=tags, checksums=["sha512"])
+    bag = bagit.make_bag(dst, bag_info=tags, checksums=["sha512"])
+    if not any(bag.manifest_files()):
+        # There is no content and thus nothing in the manifest, but a bag
+        # isn't valid without one
+        with open(os.path.join(dst, "manifest-sha512.txt"), "w", encoding="utf-8"):
+            pass
+        bag.save()
-- 
2.43.0


From ef6b1139c2e445b5e64e2c140f5e97238ab3f2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:02 +0000
Subject: [PATCH 73/76] fix: normalising digests lost paths when two digests
 became the same

---
 ocfl/inventory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocfl/inventory.py b/ocfl/inventory.py
index 55a7552..37f684a 100644
--- a/ocfl/inventory.py
+++ b/ocfl/inventory.py
@@ -554,7 +554,7 @@ class Inventory():  # pylint: disable=too-many-public-methods
             if digest != norm_digest:
                 from_to[digest] = norm_digest
         for (digest, norm_digest) in from_to.items():
-            manifest[norm_digest] = manifest.pop(digest)
+            manifest.setdefault(norm_digest, []).extend(manifest.pop(digest))
         for v in self.versions():
             state = v.state
             from_to = {}
@@ -563,7 +563,7 @@ class Inventory():  # pylint: disable=too-many-public-methods
                 if digest != norm_digest:
                     from_to[digest] = norm_digest
             for (digest, norm_digest) in from_to.items():
-                state[norm_digest] = state.pop(digest)
+                state.setdefault(norm_digest, []).extend(state.pop(digest))
 
 
 class Version():
-- 
2.43.0


From 65756711f97689be58005c2ec7dc2e98e901655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:02 +0000
Subject: [PATCH 74/76] fix: registered object extensions were warned about as
 unregistered (W013)

---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 455e016..9ff74b2 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -296,7 +296,7 @@ class Validator():
         extensions.
         """
         for entry in self.obj_fs.listdir("extensions", detail=True):
-            name = entry["name"]
+            name = os.path.relpath(entry["name"], "extensions")
             if entry["type"] == "directory":
                 if name not in self.registered_extensions:
                     self.log.warning("W013", entry=name)
-- 
2.43.0


From 0c3775e4daa84771b006b557bd390690b3908c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:44 +0000
Subject: [PATCH 75/76] fix: mark every surplus inventory digest of a version
 directory in the object tree

---
 ocfl/object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/object.py b/ocfl/object.py
index 636287e..2eb2d80 100755
--- a/ocfl/object.py
+++ b/ocfl/object.py
@@ -641,7 +641,7 @@ class Object():  # pylint: disable=too-many-public-methods
                     elif v_entry.startswith(INVENTORY_FILENAME + "."):
                         if seen_v_sidecar:
                             v_note += "<--- multiple inventory digests?"
-                            seen_v_sidecar = True
+                        seen_v_sidecar = True
                     elif v_entry == self.content_directory:
                         num_files = 0
                         for (v_dirpath, v_dirs, v_files) in self.obj_fs.walk(os.path.join(entry, v_entry)):  # pylint: disable=unused-variable
-- 
2.43.0


From c568b5bfe9000ebcb1e2041241a4c4545ac84d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:45 +0000
Subject: [PATCH 76/76] fix: inventory digest which is a directory was accepted
 when digests are not checked

---
 ocfl/validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocfl/validator.py b/ocfl/validator.py
index 9ff74b2..b9dff4a 100644
--- a/ocfl/validator.py
+++ b/ocfl/validator.py
@@ -227,7 +227,7 @@ class Validator():
     def validate_inventory_digest(self, inv_file, digest_algorithm, where="root"):
         """Validate the appropriate inventory digest file in path."""
         inv_digest_file = inv_file + "." + digest_algorithm
-        if not self.obj_fs.exists(inv_digest_file):
+        if not self.obj_fs.isfile(inv_digest_file):
             self.log.error("E058a", where=where, path=inv_digest_file)
         else:
             self.validate_inventory_digest_match(inv_file, inv_digest_file)
-- 
2.43.0

