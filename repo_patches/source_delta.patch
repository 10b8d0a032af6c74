From 0e6c518cb98198c3fa2c3b56f28509e913d2abca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:19 +0000
Subject: [PATCH 01/43] fix: look up and release descriptors under the table's
 lock

squash_close() gave the number back to the system before it took the lock,
so a concurrent squash_open() could be handed the number and lose its entry,
and every user of the table read it while squash_open() might be moving it.
---
 include/squash.h | 10 ++++++++--
 src/dirent.c     |  2 +-
 src/fd.c         | 27 +++++++++++++++++++++------
 3 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/include/squash.h b/include/squash.h
index 2794c27..47ab328 100644
--- a/include/squash.h
+++ b/include/squash.h
@@ -49,8 +49,8 @@
 #define SQUASH_SEEK_CUR 1 /* set file offset to current plus offset */
 #define SQUASH_SEEK_END 2 /* set file offset to EOF plus offset */
 
-#define SQUASH_VALID_VFD(vfd) ((vfd) < squash_global_fdtable.nr && NULL != squash_global_fdtable.fds[(vfd)])
-#define SQUASH_VFD_FILE(vfd) (squash_global_fdtable.fds[(vfd)])
+#define SQUASH_VALID_VFD(vfd) (NULL != squash_vfd_file(vfd))
+#define SQUASH_VFD_FILE(vfd) (squash_vfd_file(vfd))
 
 extern sqfs_err squash_errno;
 
@@ -59,6 +59,12 @@ ssize_t squash_readlink_inode(sqfs *fs, sqfs_inode *node, char *buf, size_t bufs
 sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node);
 struct squash_file * squash_find_entry(void *ptr);
 
+/*
+ * Returns the open file of the virtual file descriptor vfd,
+ * or NULL if vfd is not an open virtual file descriptor.
+ */
+struct squash_file * squash_vfd_file(int vfd);
+
 /*
  * Obtains information about the file pointed to by path of a SquashFS fs.
  * The buf argument is a pointer to a stat structure as defined by
diff --git a/src/dirent.c b/src/dirent.c
index a379069..0b196f2 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -32,9 +32,9 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 	{
 		goto failure;
 	}
-	handle = (int *)(squash_global_fdtable.fds[dir->fd]->payload);
 
 	MUTEX_LOCK(&squash_global_mutex);
+	handle = (int *)(squash_global_fdtable.fds[dir->fd]->payload);
 	free(handle);
 	squash_global_fdtable.fds[dir->fd]->payload = (void *)dir;
 	MUTEX_UNLOCK(&squash_global_mutex);
diff --git a/src/fd.c b/src/fd.c
index e564c8a..3ae95b8 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -117,15 +117,18 @@ int squash_close(int vfd)
 	int ret;
 	struct squash_file *file;
 
-        if (!SQUASH_VALID_VFD(vfd)) {
+        // the entry has to be gone before vfd can be handed out again
+        MUTEX_LOCK(&squash_global_mutex);
+        if (vfd < 0 || vfd >= squash_global_fdtable.nr || NULL == squash_global_fdtable.fds[vfd]) {
+                MUTEX_UNLOCK(&squash_global_mutex);
                 errno = EBADF;
                 return -1;
         }
         ret = close(vfd);
 	if (-1 == ret) {
+		MUTEX_UNLOCK(&squash_global_mutex);
 		return -1;
 	}
-        MUTEX_LOCK(&squash_global_mutex);
         if (S_ISDIR(squash_global_fdtable.fds[vfd]->st.st_mode)) {
                 SQUASH_DIR *dir = (SQUASH_DIR *) (squash_global_fdtable.fds[vfd]->payload);
                 free(dir);
@@ -156,12 +159,12 @@ ssize_t squash_read(int vfd, void *buf, sqfs_off_t nbyte)
 	sqfs_err error;
 	struct squash_file *file;
 
-	if (!SQUASH_VALID_VFD(vfd))
+	file = squash_vfd_file(vfd);
+	if (NULL == file)
 	{
 		errno = EBADF;
 		goto failure;
 	}
-	file = squash_global_fdtable.fds[vfd];
 
 	error = sqfs_read_range(file->fs, &file->node, file->pos, &nbyte, buf);
 	if (SQFS_OK != error)
@@ -180,12 +183,12 @@ failure:
 off_t squash_lseek(int vfd, off_t offset, int whence)
 {
 	struct squash_file *file;
-	if (!SQUASH_VALID_VFD(vfd))
+	file = squash_vfd_file(vfd);
+	if (NULL == file)
 	{
 		errno = EBADF;
 		return -1;
 	}
-	file = squash_global_fdtable.fds[vfd];
 	if (SQUASH_SEEK_SET == whence)
 	{
 		file->pos = offset;
@@ -225,6 +228,18 @@ sqfs_err squash_start()
 	}
 }
 
+struct squash_file * squash_vfd_file(int vfd)
+{
+	struct squash_file * ret = NULL;
+	// the table may be moved by a concurrent squash_open()
+	MUTEX_LOCK(&squash_global_mutex);
+	if (vfd >= 0 && vfd < squash_global_fdtable.nr) {
+		ret = squash_global_fdtable.fds[vfd];
+	}
+	MUTEX_UNLOCK(&squash_global_mutex);
+	return ret;
+}
+
 struct squash_file * squash_find_entry(void *ptr)
 {
 	size_t i;
-- 
2.43.0


From b03adf60e12545352f954a443f218da5d1af4f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 02/43] fix: a failing squash_open releases its lock,
 descriptor, table and name

When the table could not be grown the lock was kept and the table forgotten;
other failures leaked the system descriptor or the copy of the path.
---
 src/fd.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/fd.c b/src/fd.c
index 3ae95b8..777930a 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -16,8 +16,9 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 {
 	sqfs_err error;
 	struct squash_file *file = calloc(1, sizeof(struct squash_file));
+	struct squash_file **fds;
 	short found;
-	int fd;
+	int fd = -1;
 	size_t nr;
 	int *handle;
 
@@ -38,6 +39,11 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 		goto failure;
 	}
 	file->filename = strdup(path);
+	if (NULL == file->filename)
+	{
+		errno = ENOMEM;
+		goto failure;
+	}
 
 	if (!found)
 	{
@@ -66,13 +72,15 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 		// we secretly extend the requested size
 		// in order to minimize the number of realloc calls
 		nr *= 10;
-		squash_global_fdtable.fds = realloc(squash_global_fdtable.fds,
-						    nr * sizeof(struct squash_file *));
-		if (NULL == squash_global_fdtable.fds)
+		fds = realloc(squash_global_fdtable.fds,
+			      nr * sizeof(struct squash_file *));
+		if (NULL == fds)
 		{
+			MUTEX_UNLOCK(&squash_global_mutex);
 			errno = ENOMEM;
 			goto failure;
 		}
+		squash_global_fdtable.fds = fds;
 		memset(squash_global_fdtable.fds + squash_global_fdtable.nr,
 		       0,
 		       (nr - squash_global_fdtable.nr) * sizeof(struct squash_file *));
@@ -103,6 +111,10 @@ failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
+	if (-1 != fd) {
+		close(fd);
+	}
+	free(file->filename);
 	free(file);
 	return -1;
 }
-- 
2.43.0


From 5e467b448756ac3edf899af7e5cd542a9ab9b01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 03/43] fix: a failing squash_opendir releases its descriptor

The descriptor stayed open, with a payload that had been freed.
---
 src/dirent.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/dirent.c b/src/dirent.c
index 0b196f2..ff2404a 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -26,7 +26,13 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 	dir->fs = fs;
 	dir->entries = NULL;
 	dir->nr = 0;
+	dir->fd = -1;
 	dir->filename = strdup(filename);
+	if (NULL == dir->filename)
+	{
+		errno = ENOMEM;
+		goto failure;
+	}
 	dir->fd = squash_open(fs, filename);
 	if (-1 == dir->fd)
 	{
@@ -66,7 +72,13 @@ failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
-	free(dir);
+	free(dir->filename);
+	if (-1 != dir->fd) {
+		// dir itself is freed by squash_close as `payload`
+		squash_close(dir->fd);
+	} else {
+		free(dir);
+	}
 	return NULL;
 }
 
-- 
2.43.0


From f7c9f6c29fc288709136645a3c427812d5eec571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:28 +0000
Subject: [PATCH 04/43] fix: failures report their own error code

An error code set before the call was reported as the cause of its failure.
---
 src/dir.c      | 4 +++-
 src/dirent.c   | 3 ++-
 src/fd.c       | 2 ++
 src/readlink.c | 1 +
 src/stat.c     | 4 +++-
 5 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index e9842af..2127537 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -56,8 +56,10 @@ static sqfs_err sqfs_dir_md_read(sqfs *fs, sqfs_dir *dir, void *buf,
 
 sqfs_err sqfs_dir_open(sqfs *fs, sqfs_inode *inode, sqfs_dir *dir,
 		off_t offset) {
-	if (!S_ISDIR(inode->base.mode))
+	if (!S_ISDIR(inode->base.mode)) {
+		errno = ENOTDIR;
 		return SQFS_ERR;
+	}
 
 	memset(dir, 0, sizeof(*dir));
 	dir->cur.block = inode->xtra.dir.start_block +
diff --git a/src/dirent.c b/src/dirent.c
index ff2404a..9b0bb87 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -17,7 +17,8 @@ SQUASH_DIR *squash_opendir_inner(sqfs *fs, const char *filename, short follow_li
 	short found;
 	SQUASH_DIR *dir = calloc(1, sizeof(SQUASH_DIR));
 	int *handle;
-	
+
+	errno = 0; // whatever is reported below is about this call
 	if (NULL == dir)
 	{
 		errno = ENOMEM;
diff --git a/src/fd.c b/src/fd.c
index 777930a..c235ae0 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -22,6 +22,7 @@ int squash_open_inner(sqfs *fs, const char *path, short follow_link)
 	size_t nr;
 	int *handle;
 
+	errno = 0; // whatever is reported below is about this call
 	// try locating the file and fetching its stat
 	if (NULL == file)
 	{
@@ -171,6 +172,7 @@ ssize_t squash_read(int vfd, void *buf, sqfs_off_t nbyte)
 	sqfs_err error;
 	struct squash_file *file;
 
+	errno = 0; // whatever is reported below is about this call
 	file = squash_vfd_file(vfd);
 	if (NULL == file)
 	{
diff --git a/src/readlink.c b/src/readlink.c
index c468b4d..ba81b44 100644
--- a/src/readlink.c
+++ b/src/readlink.c
@@ -63,6 +63,7 @@ ssize_t squash_readlink(sqfs *fs, const char *path, char *buf, size_t bufsize) {
 
     found = 0;
 
+    errno = 0; // whatever is reported below is about this call
     error = sqfs_inode_get(fs, &node, sqfs_inode_root(fs));
     if (SQFS_OK != error)
     	goto failure;
diff --git a/src/stat.c b/src/stat.c
index 121f575..24ef696 100644
--- a/src/stat.c
+++ b/src/stat.c
@@ -13,7 +13,8 @@ int squash_stat(sqfs *fs, const char *path, struct stat *buf)
 	sqfs_err error;
 	sqfs_inode node;
 	short found;
-	
+
+	errno = 0; // whatever is reported below is about this call
 	error = sqfs_inode_get(fs, &node, sqfs_inode_root(fs));
 	if (SQFS_OK != error) {
 		goto failure;
@@ -45,6 +46,7 @@ int squash_lstat(sqfs *fs, const char *path, struct stat *buf)
 	sqfs_inode node;
 	short found;
 
+	errno = 0; // whatever is reported below is about this call
 	error = sqfs_inode_get(fs, &node, sqfs_inode_root(fs));
 	if (SQFS_OK != error) {
 		goto failure;
-- 
2.43.0


From fdc9f9376d0fe0a3269343ee9a3441896c042640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 05/43] fix: squash_lseek rejects negative targets and unknown
 modes

and seeking to the end of what is not a regular file, which asserted.
---
 src/fd.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/fd.c b/src/fd.c
index c235ae0..cfb1b9e 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -205,17 +205,27 @@ off_t squash_lseek(int vfd, off_t offset, int whence)
 	}
 	if (SQUASH_SEEK_SET == whence)
 	{
-		file->pos = offset;
+		/* absolute */
 	}
 	else if (SQUASH_SEEK_CUR == whence)
 	{
-		file->pos += offset;
+		offset += file->pos;
 	}
-	else if (SQUASH_SEEK_END == whence)
+	else if (SQUASH_SEEK_END == whence && S_ISREG(file->node.base.mode))
 	{
-		assert(S_ISREG(file->node.base.mode));
-		file->pos = file->node.xtra.reg.file_size;
+		offset = file->node.xtra.reg.file_size;
 	}
+	else
+	{
+		errno = EINVAL;
+		return -1;
+	}
+	if (offset < 0)
+	{
+		errno = EINVAL;
+		return -1;
+	}
+	file->pos = offset;
 	return file->pos;
 }
 
-- 
2.43.0


From 8cd10775e132746ee9469f7aab7cebc1bd42b7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 06/43] fix: squash_read returns 0 past the end of the file and
 for no bytes

and rejects a negative count as an invalid argument.
---
 src/fd.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fd.c b/src/fd.c
index cfb1b9e..e347086 100644
--- a/src/fd.c
+++ b/src/fd.c
@@ -180,6 +180,16 @@ ssize_t squash_read(int vfd, void *buf, sqfs_off_t nbyte)
 		goto failure;
 	}
 
+	if (nbyte < 0)
+	{
+		errno = EINVAL;
+		goto failure;
+	}
+	if (S_ISREG(file->node.base.mode) &&
+	    (0 == nbyte || file->pos >= file->node.xtra.reg.file_size))
+	{
+		return 0;
+	}
 	error = sqfs_read_range(file->fs, &file->node, file->pos, &nbyte, buf);
 	if (SQFS_OK != error)
 	{
-- 
2.43.0


From dd0f852b29a13a1ad9106b897b830f394caa187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:30 +0000
Subject: [PATCH 07/43] fix: do not cache blocks that could not be read

The entry was left with no block, or with the one it had replaced, and the
next reader of that block used it.
---
 src/fs.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fs.c b/src/fs.c
index d51ea26..340c0e2 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -183,11 +183,14 @@ sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block) {
 
 	entry = sqfs_cache_get(&fs->md_cache, *pos);
 	if (!entry) {
-		entry = sqfs_cache_add(&fs->md_cache, *pos);
-		ret = sqfs_md_block_read(fs, *pos, &entry->data_size, &entry->block);
+		size_t data_size;
+		ret = sqfs_md_block_read(fs, *pos, &data_size, block);
 		if (ret) {
-			goto exit;
+			goto exit; /* only a block that could be read is cached */
 		}
+		entry = sqfs_cache_add(&fs->md_cache, *pos);
+		entry->data_size = data_size;
+		entry->block = *block;
 	}
 	*block = entry->block;
 	*pos += entry->data_size;
@@ -205,11 +208,12 @@ sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 
 	entry = sqfs_cache_get(cache, pos);
 	if (!entry) {
-		entry = sqfs_cache_add(cache, pos);
-		ret = sqfs_data_block_read(fs, pos, hdr, &entry->block);
+		ret = sqfs_data_block_read(fs, pos, hdr, block);
 		if (ret) {
-			goto exit;
+			goto exit; /* only a block that could be read is cached */
 		}
+		entry = sqfs_cache_add(cache, pos);
+		entry->block = *block;
 	}
 	*block = entry->block;
 	ret = SQFS_OK;
-- 
2.43.0


From 31bdb6d0bedff7f49073bd24b753534f78d60dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 08/43] fix: hold the cache's lock while using a cached block

A block could be evicted and freed by another thread while it was copied.
---
 include/squash/file.h |  1 +
 include/squash/fs.h   |  4 +++-
 src/file.c            | 16 +++++++++++++---
 src/fs.c              | 13 +++++++------
 src/table.c           |  6 +++++-
 5 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/include/squash/file.h b/include/squash/file.h
index eafd8ed..1dd961f 100644
--- a/include/squash/file.h
+++ b/include/squash/file.h
@@ -34,6 +34,7 @@
 sqfs_err sqfs_frag_entry(sqfs *fs, struct squashfs_fragment_entry *frag,
 	uint32_t idx);
 
+/* The caller holds the mutex of fs->frag_cache, see sqfs_data_cache */
 sqfs_err sqfs_frag_block(sqfs *fs, sqfs_inode *inode,
 	size_t *offset, size_t *size, sqfs_block **block);
 
diff --git a/include/squash/fs.h b/include/squash/fs.h
index 9c3c699..026967f 100644
--- a/include/squash/fs.h
+++ b/include/squash/fs.h
@@ -103,7 +103,9 @@ sqfs_err sqfs_md_block_read(sqfs *fs, sqfs_off_t pos, size_t *data_size,
 sqfs_err sqfs_data_block_read(sqfs *fs, sqfs_off_t pos, uint32_t hdr,
 	sqfs_block **block);
 
-/* Don't dispose after getting block, it's in the cache */
+/* Don't dispose after getting block, it's in the cache.
+   The caller holds the mutex of the cache, and keeps it while using block:
+   the next one to add to the cache may evict it. */
 sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block);
 sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 	uint32_t hdr, sqfs_block **block);
diff --git a/src/file.c b/src/file.c
index d680b5f..1c0b081 100644
--- a/src/file.c
+++ b/src/file.c
@@ -137,6 +137,7 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 	buf_orig = buf;
 	while (*size > 0) {
 		sqfs_block *block = NULL;
+		sqfs_cache *cache = NULL; /* locked while block is in use */
 		size_t data_off, data_size;
 		size_t take;
 		
@@ -144,9 +145,13 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 		if (fragment) { /* fragment */
 			if (inode->xtra.reg.frag_idx == SQUASHFS_INVALID_FRAG)
 				break;
+			cache = &fs->frag_cache;
+			MUTEX_LOCK(&cache->mutex);
 			err = sqfs_frag_block(fs, inode, &data_off, &data_size, &block);
-			if (err)
+			if (err) {
+				MUTEX_UNLOCK(&cache->mutex);
 				return err;
+			}
 		} else {			
 			if ((err = sqfs_blocklist_next(&bl)))
 				return err;
@@ -159,10 +164,14 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 				if (data_size > block_size)
 					data_size = block_size;
 			} else {
-				err = sqfs_data_cache(fs, &fs->data_cache, bl.block,
+				cache = &fs->data_cache;
+				MUTEX_LOCK(&cache->mutex);
+				err = sqfs_data_cache(fs, cache, bl.block,
 					bl.header, &block);
-				if (err)
+				if (err) {
+					MUTEX_UNLOCK(&cache->mutex);
 					return err;
+				}
 				data_size = block->size;
 			}
 		}
@@ -173,6 +182,7 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 		if (block) {
 			memcpy(buf, (char*)block->data + data_off + read_off, take);
 			/* BLOCK CACHED, DON'T DISPOSE */
+			MUTEX_UNLOCK(&cache->mutex);
 		} else {
 			memset(buf, 0, take);
 		}
diff --git a/src/fs.c b/src/fs.c
index 340c0e2..e7af46a 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -179,7 +179,6 @@ sqfs_err sqfs_data_block_read(sqfs *fs, sqfs_off_t pos, uint32_t hdr,
 sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block) {
 	sqfs_block_cache_entry *entry;
 	sqfs_err ret;
-	MUTEX_LOCK(&fs->md_cache.mutex);
 
 	entry = sqfs_cache_get(&fs->md_cache, *pos);
 	if (!entry) {
@@ -196,7 +195,6 @@ sqfs_err sqfs_md_cache(sqfs *fs, sqfs_off_t *pos, sqfs_block **block) {
 	*pos += entry->data_size;
 	ret = SQFS_OK;
 exit:
-	MUTEX_UNLOCK(&fs->md_cache.mutex);
 	return ret;
 }
 
@@ -204,7 +202,6 @@ sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 		uint32_t hdr, sqfs_block **block) {
 	sqfs_block_cache_entry *entry;
 	sqfs_err ret;
-	MUTEX_LOCK(&cache->mutex);
 
 	entry = sqfs_cache_get(cache, pos);
 	if (!entry) {
@@ -218,7 +215,6 @@ sqfs_err sqfs_data_cache(sqfs *fs, sqfs_cache *cache, sqfs_off_t pos,
 	*block = entry->block;
 	ret = SQFS_OK;
 exit:
-	MUTEX_UNLOCK(&cache->mutex);
 	return ret;
 }
 
@@ -239,9 +235,13 @@ sqfs_err sqfs_md_read(sqfs *fs, sqfs_md_cursor *cur, void *buf, size_t size) {
 	while (size > 0) {
 		sqfs_block *block;
 		size_t take;
-		sqfs_err err = sqfs_md_cache(fs, &pos, &block);
-		if (err)
+		sqfs_err err;
+		MUTEX_LOCK(&fs->md_cache.mutex);
+		err = sqfs_md_cache(fs, &pos, &block);
+		if (err) {
+			MUTEX_UNLOCK(&fs->md_cache.mutex);
 			return err;
+		}
 		
 		take = block->size - cur->offset;
 		if (take > size)
@@ -258,6 +258,7 @@ sqfs_err sqfs_md_read(sqfs *fs, sqfs_md_cursor *cur, void *buf, size_t size) {
 			cur->block = pos;
 			cur->offset = 0;
 		}
+		MUTEX_UNLOCK(&fs->md_cache.mutex);
 	}
 	return SQFS_OK;
 }
diff --git a/src/table.c b/src/table.c
index e4fbd5c..7db3767 100644
--- a/src/table.c
+++ b/src/table.c
@@ -57,10 +57,14 @@ sqfs_err sqfs_table_get(sqfs_table *table, sqfs *fs, size_t idx, void *buf) {
 		off = pos % SQUASHFS_METADATA_SIZE;
 	
 	sqfs_off_t bpos = table->blocks[bnum];
-	if (sqfs_md_cache(fs, &bpos, &block))
+	MUTEX_LOCK(&fs->md_cache.mutex);
+	if (sqfs_md_cache(fs, &bpos, &block)) {
+		MUTEX_UNLOCK(&fs->md_cache.mutex);
 		return SQFS_ERR;
+	}
 	
 	memcpy(buf, (char*)(block->data) + off, table->each);
+	MUTEX_UNLOCK(&fs->md_cache.mutex);
 	/* BLOCK CACHED, DON'T DISPOSE */
 	return SQFS_OK;
 }
-- 
2.43.0


From 1ed2710dc1d413511a74ef118512e89eed4dcd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:32 +0000
Subject: [PATCH 09/43] fix: do not use the block index for the tail fragment

The block list ends there; when it ended at the end of a metadata block the
entry read was past the end of the index.
---
 src/file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file.c b/src/file.c
index 1c0b081..cbe3a12 100644
--- a/src/file.c
+++ b/src/file.c
@@ -292,7 +292,7 @@ sqfs_err sqfs_blockidx_blocklist(sqfs *fs, sqfs_inode *inode, sqfs_blocklist *bl
 
 	sqfs_blocklist_init(fs, inode, bl);
 	block = (size_t)(start / fs->sb->block_size);
-	if (block > bl->remain) { /* fragment */
+	if (block >= bl->remain) { /* fragment */
 		bl->remain = 0;
 		ret = SQFS_OK;
 		goto exit;
-- 
2.43.0


From 095f52604fc9ccb4680a294da6928e2627694960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:32 +0000
Subject: [PATCH 10/43] fix: dot-dot takes back a component, not a dot or an
 empty one

and may take back the first component of a path without a leading slash.
---
 src/dir.c | 52 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index 2127537..b8807e6 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -277,6 +277,27 @@ sqfs_err sqfs_dir_lookup(sqfs *fs, sqfs_inode *inode,
 	return err;
 }
 
+/* Find the component that the dot-dot following end takes back, NULL if none */
+static char *component_before(char *path, char *end)
+{
+	char *begin;
+
+	while (1) {
+		while (end > path && '/' == end[-1]) /* empty components */
+			--end;
+		begin = end;
+		while (begin > path && '/' != begin[-1])
+			--begin;
+		if (1 != end - begin || '.' != *begin)
+			break;
+		end = begin; /* a dot is nothing to take back */
+	}
+	if (begin == end || (2 == end - begin && 0 == strncmp(begin, "..", 2))) {
+		return NULL; /* above the root */
+	}
+	return begin;
+}
+
 static sqfs_err clear_dot_dot(char *path)
 {
 	char *dot_dot, *dot_dot_left;
@@ -284,30 +305,21 @@ static sqfs_err clear_dot_dot(char *path)
 	// we might get a path like /a/b/../../c/d
 	// in which case we need to interpret dot-dot's
 	while ((dot_dot = strstr(path, "/../"))) {
-		dot_dot_left = dot_dot - 1;
-		do {
-			if (dot_dot_left < path) {
-				return SQFS_ERR;
-			}
-			if ('/' == *dot_dot_left) {
-				break;
-			}
-			--dot_dot_left;
-		} while (1);
-		memmove(dot_dot_left, dot_dot + 3, strlen(dot_dot + 3) + 1);
+		dot_dot_left = component_before(path, dot_dot);
+		if (NULL == dot_dot_left) {
+			return SQFS_ERR;
+		}
+		memmove(dot_dot_left, dot_dot + 4, strlen(dot_dot + 4) + 1);
 	}
 	// what about /a/b/c/d/..
 	if (strlen(path) >= 3 && 0 == strcmp(path + strlen(path) - 3, "/..")) {
-		dot_dot_left = path + strlen(path) - 4;
-		do {
-			if (dot_dot_left < path) {
-				return SQFS_ERR;
-			}
-			if ('/' == *dot_dot_left) {
-				break;
-			}
+		dot_dot_left = component_before(path, path + strlen(path) - 3);
+		if (NULL == dot_dot_left) {
+			return SQFS_ERR;
+		}
+		while (dot_dot_left > path && '/' == dot_dot_left[-1]) {
 			--dot_dot_left;
-		} while (1);
+		}
 		*dot_dot_left = '\0';
 	}
 	return SQFS_OK;
-- 
2.43.0


From 9eb449628e1c221ef8623e3712faa5aae79a381a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 11/43] fix: links resolve from their own directory, nested
 links end

A lookup keeps the nodes it came through instead of a path it cuts
up: relative targets start in the directory that holds the link, no
path is built in a fixed buffer, and links nested in the targets of
links are limited in depth and number.  Cycles through directories
recursed without end, a link named without a slash read before its
path, long targets ran over the buffer, and links reached through
linked directories resolved from the wrong directory.
---
 include/squash/squashfs_fs.h |   1 +
 src/dir.c                    | 291 +++++++++++++++++++++--------------
 2 files changed, 174 insertions(+), 118 deletions(-)

diff --git a/include/squash/squashfs_fs.h b/include/squash/squashfs_fs.h
index fda6666..40faccd 100644
--- a/include/squash/squashfs_fs.h
+++ b/include/squash/squashfs_fs.h
@@ -63,6 +63,7 @@
 #define SQUASHFS_NAME_LEN		256
 #define SQUASHFS_PATH_LEN		2048
 #define SQUASHFS_MAX_LINK_LEVEL	32
+#define SQUASHFS_MAX_LINKS	1024
 #define SQUASHFS_INVALID_FRAG		(0xffffffffU)
 #define SQUASHFS_INVALID_XATTR		(0xffffffffU)
 #define SQUASHFS_INVALID_BLK		((int64_t)-1)
diff --git a/src/dir.c b/src/dir.c
index b8807e6..0a7d88d 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -325,114 +325,54 @@ static sqfs_err clear_dot_dot(char *path)
 	return SQFS_OK;
 }
 
-sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
-
-	sqfs_err error;
-	short found;
-	char base_path[SQUASHFS_PATH_LEN];
-	char new_path[SQUASHFS_PATH_LEN];
-	int inode_num;
-
-	if(strlen(path) > SQUASHFS_PATH_LEN){
-		errno = ENAMETOOLONG;
-		return SQFS_ERR;
-	}
-
-	strncpy(base_path, path, SQUASHFS_PATH_LEN);
-	inode_num = 0;
-	do {
-		char buf_link[SQUASHFS_PATH_LEN]; // is enough for path?
-		ssize_t link_length = squash_readlink_inode(fs, node, buf_link, sizeof(buf_link));
-		if (link_length > 0) {
-			if (buf_link[0] == '/') { // is Absolute Path
-				// find node from /
-				error = sqfs_inode_get(fs, node, sqfs_inode_root(fs));
-				if (SQFS_OK != error) {
-					return error;
-				}
-				error = sqfs_lookup_path(fs, node, buf_link, &found);
-				strncpy(new_path, buf_link, SQUASHFS_PATH_LEN);
-				if (SQFS_OK != error) {
-					return error;
-				} else if (!found) {
-					errno = ENOENT;
-					return SQFS_ERR;
-				}
-			} else { // is Relative Path
-				size_t pos = strlen(base_path) - 1;
-				// find the last /  "/a/b/cb"
-				while (base_path[pos--] != '/') { }
-
-				memcpy(new_path, base_path, pos + 2);
-				memcpy(new_path + pos + 2, buf_link, link_length);
-				new_path[pos + 2 + link_length] = '\0';
-				
-				error = clear_dot_dot(new_path);
-				if (SQFS_OK != error) {
-					errno = ENOENT;
-					return SQFS_ERR;
-				}
-				
-				// find node from /
-				error = sqfs_inode_get(fs, node, sqfs_inode_root(fs));
-				if (SQFS_OK != error) {
-					return error;
-				}
-				error = sqfs_lookup_path(fs, node, new_path, &found);
-				if (SQFS_OK != error) {
-					return error;
-				} else if (!found) {
-					errno = ENOENT;
-					return SQFS_ERR;
-				}
-			}
-
-			inode_num++;
-			if (inode_num > SQUASHFS_MAX_LINK_LEVEL) {
-				errno = ELOOP;
-				return SQFS_ERR;
-			}
-			strncpy(base_path, new_path, SQUASHFS_PATH_LEN);
-
-		} else {
+/* Where a path lookup stands: the nodes from the directory it started in down
+	 to the one it has reached, none of them by way of a symbolic link. */
+typedef struct {
+	sqfs_inode *nodes;
+	size_t count;
+	size_t capacity;
+	size_t links; /* symbolic links followed so far */
+} sqfs_walk;
+
+static sqfs_err walk_push(sqfs_walk *walk, const sqfs_inode *inode) {
+	if (walk->count == walk->capacity) {
+		size_t capacity = walk->capacity ? walk->capacity * 2 : 8;
+		sqfs_inode *nodes = realloc(walk->nodes, capacity * sizeof(sqfs_inode));
+		if (NULL == nodes) {
+			errno = ENOMEM;
 			return SQFS_ERR;
 		}
-
-
-	} while (S_ISLNK(node->base.mode));
-
+		walk->nodes = nodes;
+		walk->capacity = capacity;
+	}
+	walk->nodes[walk->count++] = *inode;
 	return SQFS_OK;
 }
 
-sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incoming_path,
-		short *found, short follow_link) {
-	sqfs_err err, ret;
+static sqfs_inode *walk_top(sqfs_walk *walk) {
+	return &walk->nodes[walk->count - 1];
+}
+
+static sqfs_err walk_link(sqfs *fs, sqfs_walk *walk, int depth);
+
+/* Take the components of path, one after the other */
+static sqfs_err walk_path(sqfs *fs, sqfs_walk *walk, const char *path,
+		short *found, short follow_link, int depth) {
+	sqfs_err err;
 	sqfs_name buf;
-	sqfs_path path_here;
 	sqfs_dir_entry entry;
-	char *path, *path0;
-	short is_last_component;
+	sqfs_inode inode;
+	const char *path0 = path;
 	memset(&buf, 0, sizeof(sqfs_name));
 	memset(&entry, 0, sizeof(sqfs_dir_entry));
 
 	*found = 0;
 	sqfs_dentry_init(&entry, buf);
 
-	path = strdup(incoming_path);
-	if (NULL == path) {
-		return SQFS_ERR;
-	}
-	path0 = path;
-
-	err = clear_dot_dot(path);
-	if (SQFS_OK != err) {
-		ret = SQFS_OK; /* not found */
-		goto exit;
-	}
-	
 	while (*path) {
 		const char *name;
 		size_t size;
+		short is_last_component;
 		
 		/* Find next path component */
 		while (*path == '/') /* skip leading slashes */
@@ -450,48 +390,163 @@ sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incomin
 			/* interpret dot */
 			continue;
 		}
-		if ((err = sqfs_dir_lookup(fs, inode, name, size, &entry, found))) {
-			ret = err;
-			goto exit;
+		if (2 == size && '.' == name[0] && '.' == name[1]) {
+			/* interpret dot-dot */
+			if (!S_ISDIR(walk_top(walk)->base.mode)) {
+				errno = ENOTDIR;
+				return SQFS_ERR;
+			}
+			if (1 == walk->count) {
+				*found = 0;
+				return SQFS_OK; /* not found */
+			}
+			--(walk->count);
+			continue;
+		}
+		if ((err = sqfs_dir_lookup(fs, walk_top(walk), name, size, &entry, found))) {
+			return err;
 		}
 		if (!(*found)) {
-			ret = SQFS_OK; /* not found */
-			goto exit;
+			return SQFS_OK; /* not found */
 		}
-		if ((err = sqfs_inode_get(fs, inode, sqfs_dentry_inode(&entry)))) {
-			ret = err;
-			goto exit;
+		if ((err = sqfs_inode_get(fs, &inode, sqfs_dentry_inode(&entry)))) {
+			return err;
 		}
-		if (!*path) {
-			is_last_component = 1;
-		} else if (path0 + strlen(path0) - 1 == path) {
-			assert('/' == *path);
-			is_last_component = 1;
-		} else {
-			is_last_component = 0;
+		if ((err = walk_push(walk, &inode))) {
+			return err;
 		}
+		is_last_component = !path[0] || !path[1];
 
-		if (S_ISLNK(inode->base.mode)) {
+		if (S_ISLNK(inode.base.mode)) {
 			if (!(is_last_component && !follow_link)) {
-				size_t size_here = path - path0;
-				if (size_here > SQUASHFS_PATH_LEN) {
-					size_here = SQUASHFS_PATH_LEN;
+				if (path - path0 > SQUASHFS_PATH_LEN) {
+					errno = ENAMETOOLONG;
+					return SQFS_ERR;
 				}
-				memcpy(path_here, path0, size_here);
-				path_here[size_here] = '\0';
-				err = squash_follow_link(fs, path_here, inode);
+				err = walk_link(fs, walk, depth);
 				if (SQFS_OK != err) {
-					ret = err;
-					goto exit;
+					return err;
 				}
 			}
 		}
 	}
 	
 	*found = 1;
-	ret = SQFS_OK;
+	return SQFS_OK;
+}
+
+/* Replace the link that has been reached by what it stands for */
+static sqfs_err walk_link(sqfs *fs, sqfs_walk *walk, int depth) {
+	sqfs_err error;
+	short found;
+	int inode_num = 0;
+
+	if (depth >= SQUASHFS_MAX_LINK_LEVEL) {
+		errno = ELOOP;
+		return SQFS_ERR;
+	}
+
+	do {
+		char buf_link[SQUASHFS_PATH_LEN]; // is enough for path?
+		ssize_t link_length = squash_readlink_inode(fs, walk_top(walk), buf_link, sizeof(buf_link));
+		if (link_length <= 0) {
+			return SQFS_ERR;
+		}
+
+		walk->links++;
+		if (walk->links > SQUASHFS_MAX_LINKS) {
+			errno = ELOOP;
+			return SQFS_ERR;
+		}
+
+		if (buf_link[0] == '/') { // is Absolute Path
+			// find node from /
+			walk->count = 1;
+			error = sqfs_inode_get(fs, walk_top(walk), sqfs_inode_root(fs));
+			if (SQFS_OK != error) {
+				return error;
+			}
+		} else { // is Relative Path
+			// find node from the directory of the link
+			assert(walk->count > 1);
+			--(walk->count);
+		}
+		error = walk_path(fs, walk, buf_link, &found, 0, depth + 1);
+		if (SQFS_OK != error) {
+			return error;
+		} else if (!found) {
+			errno = ENOENT;
+			return SQFS_ERR;
+		}
+
+		inode_num++;
+		if (inode_num > SQUASHFS_MAX_LINK_LEVEL) {
+			errno = ELOOP;
+			return SQFS_ERR;
+		}
+	} while (S_ISLNK(walk_top(walk)->base.mode));
+
+	return SQFS_OK;
+}
+
+sqfs_err squash_follow_link(sqfs *fs, const char *path, sqfs_inode *node) {
+
+	sqfs_err error;
+	short found;
+
+	if(strlen(path) > SQUASHFS_PATH_LEN){
+		errno = ENAMETOOLONG;
+		return SQFS_ERR;
+	}
+
+	// find node from /
+	error = sqfs_inode_get(fs, node, sqfs_inode_root(fs));
+	if (SQFS_OK != error) {
+		return error;
+	}
+	error = sqfs_lookup_path_inner(fs, node, path, &found, 1);
+	if (SQFS_OK != error) {
+		return error;
+	} else if (!found) {
+		errno = ENOENT;
+		return SQFS_ERR;
+	}
+
+	return SQFS_OK;
+}
+
+sqfs_err sqfs_lookup_path_inner(sqfs *fs, sqfs_inode *inode, const char *incoming_path,
+		short *found, short follow_link) {
+	sqfs_err err, ret;
+	sqfs_walk walk;
+	char *path;
+	memset(&walk, 0, sizeof(sqfs_walk));
+
+	*found = 0;
+
+	path = strdup(incoming_path);
+	if (NULL == path) {
+		errno = ENOMEM;
+		return SQFS_ERR;
+	}
+
+	err = clear_dot_dot(path);
+	if (SQFS_OK != err) {
+		ret = SQFS_OK; /* not found */
+		goto exit;
+	}
+
+	if ((err = walk_push(&walk, inode))) {
+		ret = err;
+		goto exit;
+	}
+	ret = walk_path(fs, &walk, path, found, follow_link, 0);
+	if (SQFS_OK == ret && *found) {
+		*inode = *walk_top(&walk);
+	}
 exit:
-	free(path0);
+	free(walk.nodes);
+	free(path);
 	return ret;
 }
 
-- 
2.43.0


From 7bedff6454cf247fe1c9cea03c2f373969c7a8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 12/43] fix: squash_readlink refuses an empty buffer

bufsize - 1 wrapped around for a buffer of no bytes, so that the
target was written past it.
---
 src/readlink.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/readlink.c b/src/readlink.c
index ba81b44..c3b8938 100644
--- a/src/readlink.c
+++ b/src/readlink.c
@@ -20,7 +20,7 @@ ssize_t squash_readlink_inode(sqfs *fs, sqfs_inode *node, char *buf, size_t bufs
 
         want = node->xtra.symlink_size;
 
-        if (want > bufsize - 1) {
+        if (want >= bufsize) {
                 errno = ENAMETOOLONG;
                 return -1; //bufsize is too small
         }
-- 
2.43.0


From f4e82132b3c7b4144f41dd0a7e62412695cace6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:17 +0000
Subject: [PATCH 13/43] fix: a listing that cannot be read fails and keeps its
 place

squash_readdir reported damage as the end without an error code, and
the entries after it as if nothing had happened when asked again.  A
failed realloc lost the entries.
---
 src/dir.c    |  4 +++-
 src/dirent.c | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/dir.c b/src/dir.c
index 0a7d88d..c40bfcc 100644
--- a/src/dir.c
+++ b/src/dir.c
@@ -124,9 +124,10 @@ short sqfs_dentry_is_dir(sqfs_dir_entry *entry) {
 
 
 
-short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry,
+short sqfs_dir_next(sqfs *fs, sqfs_dir *next, sqfs_dir_entry *entry,
 		sqfs_err *err) {
 	struct squashfs_dir_entry e;
+	sqfs_dir here = *next, *dir = &here; /* stay put unless it succeeds */
 	
 	*err = SQFS_OK;
 	entry->offset = dir->offset;
@@ -155,6 +156,7 @@ short sqfs_dir_next(sqfs *fs, sqfs_dir *dir, sqfs_dir_entry *entry,
 		return 0;
 	
 	entry->next_offset = dir->offset;
+	*next = here;
 
 	return 1;
 }
diff --git a/src/dirent.c b/src/dirent.c
index 9b0bb87..9133505 100644
--- a/src/dirent.c
+++ b/src/dirent.c
@@ -112,17 +112,20 @@ int squash_closedir(SQUASH_DIR *dirp)
 struct SQUASH_DIRENT * squash_readdir(SQUASH_DIR *dirp)
 {
 	sqfs_err error;
+	void *entries;
+	int saved_errno;
 	size_t nr = dirp->loc + 1;
 	if (dirp->nr < nr) {
 		// we secretly extend the requested size
 		// in order to minimize the number of realloc calls
 		nr *= 10;
-		dirp->entries = realloc(dirp->entries, nr * sizeof(*dirp->entries));
-		if (NULL == dirp->entries)
+		entries = realloc(dirp->entries, nr * sizeof(*dirp->entries));
+		if (NULL == entries)
 		{
 			errno = ENOMEM;
 			return NULL;
 		}
+		dirp->entries = entries;
 		dirp->nr = nr;
 	}
 
@@ -130,6 +133,8 @@ struct SQUASH_DIRENT * squash_readdir(SQUASH_DIR *dirp)
 	{
 		sqfs_dentry_init(&dirp->entries[dirp->actual_nr].entry,
 			dirp->entries[dirp->actual_nr].name);
+		saved_errno = errno;
+		errno = 0;
 		dirp->entries[dirp->actual_nr].not_eof = sqfs_dir_next(
 			dirp->fs,
 			&dirp->dir,
@@ -137,9 +142,13 @@ struct SQUASH_DIRENT * squash_readdir(SQUASH_DIR *dirp)
 			&error);
 		if (SQFS_OK != error)
 		{
+			if (!errno) {
+				errno = EIO;
+			}
 			return NULL;
 		}
-		else if (!dirp->entries[dirp->actual_nr].not_eof)
+		errno = saved_errno; // the end of the directory is no error
+		if (!dirp->entries[dirp->actual_nr].not_eof)
 		{
 			return NULL;
 		}
-- 
2.43.0


From 881e90d655ed554f31618a22f37a0e0cd257a7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 14/43] fix: squash_scandir returns all entries or fails

It stopped at 1024 entries, returned a partial list when the listing
could not be read, an array already freed when nothing was selected,
and ran on when out of memory.
---
 src/scandir.c | 58 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/src/scandir.c b/src/scandir.c
index 1aa5504..b4eb723 100644
--- a/src/scandir.c
+++ b/src/scandir.c
@@ -17,42 +17,72 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 	int (*compar)(const struct SQUASH_DIRENT **, const struct SQUASH_DIRENT **))
 {
 	SQUASH_DIR * openeddir = 0;
-	size_t n = 0;
-	struct SQUASH_DIRENT **list = NULL;
+	size_t n = 0, capacity = MAX_DIR_ENT;
+	int saved_errno;
+	struct SQUASH_DIRENT **list = NULL, **more;
 	struct SQUASH_DIRENT *ent = 0 ,*p = 0;
 
 	if((dirname == NULL) || (namelist == NULL))
+	{
+		errno = EINVAL;
 		return -1;
+	}
 
 	openeddir = squash_opendir(fs, dirname);
 	if(openeddir == NULL)
 		return -1;
 
 
-	list = (struct SQUASH_DIRENT **)malloc(MAX_DIR_ENT*sizeof(struct SQUASH_DIRENT *));
-
+	list = (struct SQUASH_DIRENT **)malloc(capacity*sizeof(struct SQUASH_DIRENT *));
+	if(list == NULL)
+	{
+		errno = ENOMEM;
+		goto failure;
+	}
 
+	// the end of the directory leaves errno alone
+	errno = 0;
 	while(( ent = squash_readdir(openeddir)) != NULL)
 	{
 		if( select && !select(ent))
+		{
+			errno = 0;
 			continue;
+		}
+
+		if(n >= capacity)
+		{
+			more = (struct SQUASH_DIRENT **)realloc((void *)list,2*capacity*sizeof(struct SQUASH_DIRENT *));
+			if(more == NULL)
+			{
+				errno = ENOMEM;
+				goto failure;
+			}
+			list = more;
+			capacity *= 2;
+		}
 
 		p = (struct SQUASH_DIRENT *)malloc(sizeof(struct SQUASH_DIRENT));
+		if(p == NULL)
+		{
+			errno = ENOMEM;
+			goto failure;
+		}
 
 		memcpy((void *)p,(void *)ent,sizeof(struct SQUASH_DIRENT));
 		list[n] = p;
 
 		n++;
-		if(n >= MAX_DIR_ENT)
-			break;
-
+		errno = 0;
 	}
+	if(errno)
+		goto failure;
 
 	//close the squash_dir
 	squash_closedir(openeddir);
 
-	//realloc the array
-	*namelist = realloc((void *)list,n*sizeof(struct SQUASH_DIRENT *));
+	//realloc the array, which the caller frees even if it is empty
+	*namelist = realloc((void *)list,(n ? n : 1)*sizeof(struct SQUASH_DIRENT *));
 	if(*namelist == NULL)
 		*namelist = list;
 
@@ -63,4 +93,12 @@ int squash_scandir(sqfs *fs, const char *dirname, struct SQUASH_DIRENT ***nameli
 
 	return n;
 
-}
\ No newline at end of file
+failure:
+	saved_errno = errno;
+	while(n > 0)
+		free(list[--n]);
+	free(list);
+	squash_closedir(openeddir);
+	errno = saved_errno;
+	return -1;
+}
-- 
2.43.0


From 9daa63c426e29626a66e60aa3e97b211f503fdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:26 +0000
Subject: [PATCH 15/43] fix: squash_extract keeps what it promises

It never closed its descriptor, remembered the caller's path buffer
instead of the path, gave up on the fourth extraction in a second for
want of a new name, left cut short files behind when it failed, took
the size of things that are no files, and clearing forgot the files
but not the names, so that a later call returned a deleted file.
---
 src/extract.c | 116 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 85 insertions(+), 31 deletions(-)

diff --git a/src/extract.c b/src/extract.c
index 7a11fc7..c94c56f 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -9,6 +9,19 @@
 #include "squash.h"
 #include <time.h>
 #include <stdlib.h>
+#ifndef _WIN32
+#include <unistd.h>
+#endif
+
+// seeding again within a second would lead to the same names again
+static void squash_seed()
+{
+	static int seeded = 0;
+	if (!seeded) {
+		seeded = 1;
+		srand(time(NULL) * getpid());
+	}
+}
 
 #ifdef _WIN32
 #include <Windows.h>
@@ -58,7 +71,7 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 	wchar_t squash_win32_buf[32767 + 1];
 	size_t curlen, size_ret;
 	int ret, try_cnt = 0;
-	srand(time(NULL) * getpid());
+	squash_seed();
 	squash_win32_buf[squash_win32_buf_sz] = 0;
 	while (try_cnt < 3) {
 		squash_win32_buf[0] = 0;
@@ -113,6 +126,9 @@ SQUASH_OS_PATH squash_tmpdir()
 	try_try = "/tmp";
 out:
 	try_try = strdup(try_try);
+	if (NULL == try_try) {
+		return NULL;
+	}
 	length = strlen(try_try);
 	if (length >= 2 && '/' == try_try[length - 1]) {
 		try_try[length - 1] = 0;
@@ -126,14 +142,15 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 	int ret, try_cnt = 0;
 	struct stat statbuf;
 
-	srand(time(NULL) * getpid());
+	squash_seed();
 	while (try_cnt < 3) {
 		if (ext_name) {
 			ret = snprintf(squash_buf, squash_buf_sz, "%s/libsquash-%d.%s", tmpdir, rand(), ext_name);
 		} else {
 			ret = snprintf(squash_buf, squash_buf_sz, "%s/libsquash-%d", tmpdir, rand());
 		}
-		if (-1 == ret) {
+		if (ret < 0 || ret >= squash_buf_sz) {
+			errno = ENAMETOOLONG;
 			return NULL;
 		}
 		if (-1 == stat(squash_buf, &statbuf)) {
@@ -141,16 +158,26 @@ SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name)
 		}
 		++try_cnt;
 	}
+	errno = EEXIST;
 	return NULL;
 }
 #endif // _WIN32
 
+static void squash_unlink_tmpf(SQUASH_OS_PATH tmpf)
+{
+#ifdef _WIN32
+	DeleteFileW(tmpf);
+#else
+	unlink(tmpf);
+#endif
+}
+
 static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const char *ext_name)
 {
 	static SQUASH_OS_PATH tmpdir = NULL;
-	FILE *fp;
-	int fd;
-	SQUASH_OS_PATH tmpf;
+	FILE *fp = NULL;
+	int fd, saved_errno;
+	SQUASH_OS_PATH tmpf = NULL;
 	size_t size;
 	ssize_t ssize;
 	char buffer[16 * 1024];
@@ -161,15 +188,20 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 	if (-1 == fd) {
 		return NULL;
 	}
+	file = SQUASH_VFD_FILE(fd);
+	if (!S_ISREG(file->node.base.mode)) {
+		errno = S_ISDIR(file->node.base.mode) ? EISDIR : EINVAL;
+		goto failure;
+	}
 	if (NULL == tmpdir) {
 		tmpdir = squash_tmpdir();
 	}
 	if (NULL == tmpdir) {
-		return NULL;
+		goto failure;
 	}
 	tmpf = squash_tmpf(tmpdir, ext_name);
 	if (NULL == tmpf) {
-		return NULL;
+		goto failure;
 	}
 #ifdef _WIN32
 	fp = _wfopen(tmpf, L"wb");
@@ -178,33 +210,46 @@ static SQUASH_OS_PATH squash_uncached_extract(sqfs *fs, const char *path, const
 #endif
 	if (NULL == fp) {
 		free(tmpf);
-		return NULL;
+		tmpf = NULL;
+		goto failure;
 	}
-	file = SQUASH_VFD_FILE(fd);
 	offset = file->node.xtra.reg.file_size;
 	while (offset > 0) {
 		ssize = squash_read(fd, buffer, 16 * 1024);
 		if (ssize <= 0) {
-			fclose(fp);
-			free(tmpf);
-			return NULL;
+			goto failure;
 		}
 		offset -= ssize;
 		size = fwrite(buffer, ssize, 1, fp);
 		if (size != 1) {
-			fclose(fp);
-			free(tmpf);
-			return NULL;
+			goto failure;
 		}
 	}
 	assert(0 == offset);
-	fclose(fp);
+	if (0 != fclose(fp)) {
+		fp = NULL;
+		goto failure;
+	}
+	squash_close(fd);
 	return tmpf;
+
+failure:
+	saved_errno = errno ? errno : EIO;
+	if (fp) {
+		fclose(fp);
+	}
+	if (tmpf) {
+		squash_unlink_tmpf(tmpf);
+		free(tmpf);
+	}
+	squash_close(fd);
+	errno = saved_errno;
+	return NULL;
 }
 
 struct SquashExtractEntry {
 	sqfs *fs;
-	const char *path;
+	char *path;
 	SQUASH_OS_PATH ret;
 	struct SquashExtractEntry *next;
 };
@@ -222,23 +267,28 @@ static const struct SquashExtractEntry* squash_extract_cache_find(sqfs *fs, cons
 	}
 	return ptr;
 }
-static void squash_extract_cache_insert(sqfs *fs, const char *path, SQUASH_OS_PATH ret)
+static sqfs_err squash_extract_cache_insert(sqfs *fs, const char *path, SQUASH_OS_PATH ret)
 {
 	struct SquashExtractEntry* ptr = malloc(sizeof(struct SquashExtractEntry));
 	if (NULL == ptr) {
-		return;
+		return SQFS_ERR;
 	}
 	ptr->fs = fs;
-	ptr->path = path;
+	ptr->path = strdup(path);
+	if (NULL == ptr->path) {
+		free(ptr);
+		return SQFS_ERR;
+	}
 	ptr->ret = ret;
 	ptr->next = squash_extract_cache;
 	squash_extract_cache = ptr;
+	return SQFS_OK;
 }
 
 SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name)
 {
 	SQUASH_OS_PATH ret;
-	static struct SquashExtractEntry* found;
+	const struct SquashExtractEntry* found;
 
 	found = squash_extract_cache_find(fs, path);
 	if (NULL != found) {
@@ -246,20 +296,24 @@ SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name)
 	}
 	ret = squash_uncached_extract(fs, path, ext_name);
 	if (NULL != ret) {
-		squash_extract_cache_insert(fs, path, ret);
+		if (SQFS_OK != squash_extract_cache_insert(fs, path, ret)) {
+			squash_unlink_tmpf(ret);
+			free(ret);
+			ret = NULL;
+			errno = ENOMEM;
+		}
 	}
 	return ret;
 }
 
 void squash_extract_clear_cache()
 {
-	struct SquashExtractEntry* ptr = squash_extract_cache;
-	while (NULL != ptr) {
-#ifdef _WIN32
-		DeleteFileW(ptr->ret);
-#else
-		unlink(ptr->ret);
-#endif
-		ptr = ptr->next;
+	while (NULL != squash_extract_cache) {
+		struct SquashExtractEntry* ptr = squash_extract_cache;
+		squash_extract_cache = ptr->next;
+		squash_unlink_tmpf(ptr->ret);
+		free(ptr->ret);
+		free(ptr->path);
+		free(ptr);
 	}
 }
-- 
2.43.0


From f9c422dac61c9c39d3af067da10ca26d9bd3e6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:46 +0000
Subject: [PATCH 16/43] fix: an image's extracted files are forgotten when it
 is closed

Another image opened in the same sqfs structure was served the files
of the first one.
---
 include/squash.h |  3 +++
 src/extract.c    | 11 +++++++++++
 src/fs.c         |  3 +++
 3 files changed, 17 insertions(+)

diff --git a/include/squash.h b/include/squash.h
index 47ab328..b49b5d7 100644
--- a/include/squash.h
+++ b/include/squash.h
@@ -246,5 +246,8 @@ SQUASH_OS_PATH squash_tmpdir();
 SQUASH_OS_PATH squash_tmpf(SQUASH_OS_PATH tmpdir, const char *ext_name);
 SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name);
 void squash_extract_clear_cache();
+// called when fs goes away: its extracted files are not those of
+// whatever image is opened at the same address later
+void squash_extract_forget(sqfs *fs);
 
 #endif
diff --git a/src/extract.c b/src/extract.c
index c94c56f..22b888b 100644
--- a/src/extract.c
+++ b/src/extract.c
@@ -306,6 +306,17 @@ SQUASH_OS_PATH squash_extract(sqfs *fs, const char *path, const char *ext_name)
 	return ret;
 }
 
+void squash_extract_forget(sqfs *fs)
+{
+	// the files stay until the cache is cleared, but no one asks for them again
+	struct SquashExtractEntry* ptr;
+	for (ptr = squash_extract_cache; NULL != ptr; ptr = ptr->next) {
+		if (fs == ptr->fs) {
+			ptr->fs = NULL;
+		}
+	}
+}
+
 void squash_extract_clear_cache()
 {
 	while (NULL != squash_extract_cache) {
diff --git a/src/fs.c b/src/fs.c
index e7af46a..73d6c8b 100644
--- a/src/fs.c
+++ b/src/fs.c
@@ -22,6 +22,8 @@
  * (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF
  * THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
+#include "squash.h"
+
 #include "squash/fs.h"
 
 #include "squash/file.h"
@@ -90,6 +92,7 @@ sqfs_err sqfs_init(sqfs *fs, sqfs_fd_t fd, size_t offset) {
 }
 
 void sqfs_destroy(sqfs *fs) {
+	squash_extract_forget(fs);
 	sqfs_table_destroy(&fs->id_table);
 	sqfs_table_destroy(&fs->frag_table);
 	if (sqfs_export_ok(fs))
-- 
2.43.0


From c531009aa27fb903068548d0833dbe0f49ce0fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 17/43] fix: an image with another compressor is refused, not
 asserted upon

---
 src/decompress.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decompress.c b/src/decompress.c
index aa85602..8520933 100644
--- a/src/decompress.c
+++ b/src/decompress.c
@@ -39,6 +39,8 @@ static sqfs_err sqfs_decompressor_zlib(void *in, size_t insz,
 }
 
 sqfs_decompressor sqfs_decompressor_get(sqfs_compression_type type) {
-	assert(ZLIB_COMPRESSION == type);
+	if (ZLIB_COMPRESSION != type) {
+		return NULL; /* not supported */
+	}
 	return &sqfs_decompressor_zlib;
 }
-- 
2.43.0


From 3654b50217e1802feb26b7a0f2e4739b61577180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 18/43] fix: a cache that could not be set up is not freed
 twice

---
 src/cache.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cache.c b/src/cache.c
index 5a999cc..f65f6eb 100644
--- a/src/cache.c
+++ b/src/cache.c
@@ -62,6 +62,8 @@ void sqfs_cache_destroy(sqfs_cache *cache) {
 	}
 	free(cache->buf);
 	free(cache->idxs);
+	cache->buf = NULL;
+	cache->idxs = NULL;
 }
 
 void *sqfs_cache_get(sqfs_cache *cache, sqfs_cache_idx idx) {
-- 
2.43.0


From 050f1d935e59981d9b02a2762770bd28a6853862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 19/43] fix: an initialised stack is empty

Closing a traversal that could not be opened popped off an undefined
number of levels.
---
 src/stack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stack.c b/src/stack.c
index fe748c3..dc29c29 100644
--- a/src/stack.c
+++ b/src/stack.c
@@ -80,7 +80,7 @@ sqfs_err sqfs_stack_create(sqfs_stack *s, size_t vsize, size_t initial,
 
 void sqfs_stack_init(sqfs_stack *s) {
 	s->items = NULL;
-	s->capacity = 0;
+	s->capacity = s->size = 0;
 }
 
 void sqfs_stack_destroy(sqfs_stack *s) {
-- 
2.43.0


From d47e398dc3fdb5d7831b13590c87a6dcc8168d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 20/43] fix: a hash that cannot grow stays as it was

The old buckets were lost, or the elements, when there was no memory
for the new ones.
---
 src/hash.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index 2996a24..953e12c 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -46,25 +46,26 @@ static sqfs_err sqfs_hash_double(sqfs_hash *h) {
 	sqfs_hash_bucket **ob = h->buckets;
 	size_t oc = h->capacity;
 	size_t i;
-	sqfs_err err;
+	sqfs_hash_bucket **nb = calloc(oc * 2, sizeof(sqfs_hash_bucket*));
 	
-	if ((err = sqfs_hash_init(h, h->value_size, oc * 2)))
-		return err;
+	if (!nb)
+		return SQFS_ERR; /* as it was */
 	
 	for (i = 0; i < oc; ++i) {
 		sqfs_hash_bucket *b = ob[i];
 		while (b) {
-			sqfs_hash_bucket *n;
-			if (!err)
-				err = sqfs_hash_add_internal(h, 1, b->key, &b->value);
-			n = b->next;
-			free(b);
+			sqfs_hash_bucket *n = b->next;
+			size_t hash = (b->key & (oc * 2 - 1));
+			b->next = nb[hash];
+			nb[hash] = b;
 			b = n;
 		}
 	}
 	
+	h->buckets = nb;
+	h->capacity = oc * 2;
 	free(ob);
-	return err;
+	return SQFS_OK;
 }
 
 sqfs_err sqfs_hash_init(sqfs_hash *h, size_t vsize, size_t initial) {
-- 
2.43.0


From c1d0934ed641584a8142c4a1ad981cae7578f81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:37 +0000
Subject: [PATCH 21/43] fix: pruning a finished traversal no longer restarts it

---
 src/traverse.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/traverse.c b/src/traverse.c
index 012d98b..d7140c4 100644
--- a/src/traverse.c
+++ b/src/traverse.c
@@ -199,7 +199,10 @@ error:
 }
 
 sqfs_err sqfs_traverse_prune(sqfs_traverse *trv) {
-	trv->state = TRAVERSE_NAME_REMOVE;
+	/* Only a directory just returned can be skipped. In any other state there
+	   is nothing to prune, and a traversal that ended must stay ended. */
+	if (trv->state == TRAVERSE_DESCEND)
+		trv->state = TRAVERSE_NAME_REMOVE;
 	return SQFS_OK;
 }
 
-- 
2.43.0


From 83f06ebe022aedb5088805ad9f79fefb7b909a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:09 +0000
Subject: [PATCH 22/43] fix: sample: a failed pread leaves the position
 unchanged

---
 sample/enclose_io_unix.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 75c0782..3ddc4f9 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -592,6 +592,9 @@ ssize_t enclose_io_pread(int d, void *buf, size_t nbyte, off_t offset)
 		}
 		read_ssize = squash_read(d, buf, nbyte);
 		if (-1 == read_ssize) {
+			int read_errno = errno;
+			squash_lseek(d, backup_off, SQUASH_SEEK_SET);
+			errno = read_errno;
 			return -1;
 		}
 		lseek_off = squash_lseek(d, backup_off, SQUASH_SEEK_SET);
-- 
2.43.0


From dab629a35b67e95de975c50d203deef08aaecf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:10 +0000
Subject: [PATCH 23/43] fix: sample: readv goes on after an empty buffer and
 reports what it read before an error

---
 sample/enclose_io_unix.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 3ddc4f9..60ba727 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -614,11 +614,12 @@ ssize_t enclose_io_readv(int d, const struct iovec *iov, int iovcnt)
 		for (i = 0; i < iovcnt; ++i) {
 			i_ssize = squash_read(d, iov[i].iov_base, iov[i].iov_len);
 			if (-1 == i_ssize) {
-				return -1;
-			} else if (0 == i_ssize) {
+				/* what was read before the failure has moved the position */
+				return ret > 0 ? ret : -1;
+			}
+			ret += i_ssize;
+			if ((size_t)i_ssize < iov[i].iov_len) {
 				break;
-			} else {
-				ret += i_ssize;
 			}
 		}
 		return ret;
-- 
2.43.0


From 3191654647613f9dec8848e5b3736fe191770830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:10 +0000
Subject: [PATCH 24/43] fix: sample: lseek and read do not pass their results
 through an int

---
 sample/enclose_io_unix.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 60ba727..c27a66d 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1136,7 +1136,11 @@ int enclose_io_close(int fildes)
 ssize_t enclose_io_read(int fildes, void *buf, size_t nbyte)
 {
 	if (SQUASH_VALID_VFD(fildes)) {
-		return enclose_io_dos_return(squash_read(fildes, buf, nbyte));
+		ssize_t ret = squash_read(fildes, buf, nbyte);
+		if (-1 == ret) {
+			return enclose_io_dos_return(-1);
+		}
+		return ret;
 	} else {
 		return read(fildes, buf, nbyte);
 	}
@@ -1145,7 +1149,11 @@ ssize_t enclose_io_read(int fildes, void *buf, size_t nbyte)
 off_t enclose_io_lseek(int fildes, off_t offset, int whence)
 {
 	if (SQUASH_VALID_VFD(fildes)) {
-		return enclose_io_dos_return(squash_lseek(fildes, offset, whence));
+		off_t ret = squash_lseek(fildes, offset, whence);
+		if (-1 == ret) {
+			return enclose_io_dos_return(-1);
+		}
+		return ret;
 	} else {
 		return lseek(fildes, offset, whence);
 	}
-- 
2.43.0


From 8c96fc8467bc933612801b983a262767f844faea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:11 +0000
Subject: [PATCH 25/43] fix: sample: access hands the mode on, not a buffer
 address

---
 sample/enclose_io_unix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index c27a66d..c380d81 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -644,14 +644,14 @@ int enclose_io_access(const char *path, int mode)
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
 			squash_stat(enclose_io_fs, enclose_io_expanded, &buf),
-			access(mkdir_workdir_expanded, &buf)
+			access(mkdir_workdir_expanded, mode)
 		);
 	} else if (enclose_io_is_path(path)) {
 		struct stat buf;
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			path,
 			squash_stat(enclose_io_fs, path, &buf),
-			access(mkdir_workdir_expanded, &buf)
+			access(mkdir_workdir_expanded, mode)
 		);
 	} else {
 		return access(path, mode);
-- 
2.43.0


From 598f550900a0e4b93f86f46b2f3d2067114c9e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:12 +0000
Subject: [PATCH 26/43] fix: sample: getcwd refuses a buffer that is too small
 instead of cutting the path

---
 sample/enclose_io_unix.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index c380d81..da57883 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -784,7 +784,7 @@ int enclose_io_chdir(const char *path)
 char *enclose_io_getcwd(char *buf, size_t size)
 {
 	if (enclose_io_cwd[0]) {
-		size_t memcpy_len = strlen(enclose_io_cwd);
+		size_t memcpy_len = strlen(enclose_io_cwd); /* counts the slash, in whose place the NUL goes */
 		if (NULL == buf) {
 			buf = malloc((memcpy_len + 1) * sizeof(char));
 			if (NULL == buf) {
@@ -795,8 +795,12 @@ char *enclose_io_getcwd(char *buf, size_t size)
 				return NULL;
 			}
 		} else {
-			if (size - 1 < memcpy_len) {
-				memcpy_len = size - 1;
+			if (size < memcpy_len) {
+				errno = size ? ERANGE : EINVAL;
+				#ifdef _WIN32
+				ENCLOSE_IO_SET_LAST_ERROR;
+				#endif
+				return NULL;
 			}
 		}
 		memcpy(buf, enclose_io_cwd, memcpy_len);
-- 
2.43.0


From 6814d17a7587aa42efa6408ddacf84b86e32cc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 27/43] fix: sample: a relative chdir starts from the current
 directory inside the image

---
 sample/enclose_io_unix.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index da57883..9e25daa 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -718,7 +718,13 @@ void enclose_io_chdir_helper(const char *path)
 
 int enclose_io_chdir(const char *path)
 {
-	if (enclose_io_is_path(path)) {
+	if (enclose_io_cwd[0] && *path && '/' != *path) {
+		sqfs_path enclose_io_expanded;
+		size_t enclose_io_cwd_len;
+		size_t memcpy_len;
+		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
+		return enclose_io_chdir(enclose_io_expanded);
+	} else if (enclose_io_is_path(path)) {
 		if (mkdir_workdir) {
 			sqfs_path mkdir_workdir_expanded;
 			char *mkdir_workdir_expanded_head;
-- 
2.43.0


From 4529b17b278b1998cba2b23a66612842e8dd7243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:33 +0000
Subject: [PATCH 28/43] fix: sample: chdir to something that is no directory
 fails with ENOTDIR

---
 sample/enclose_io_unix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 9e25daa..77163ec 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -770,7 +770,7 @@ int enclose_io_chdir(const char *path)
 			enclose_io_chdir_helper(path);
 			return 0;
 		} else {
-			errno = ENOENT;
+			errno = ENOTDIR;
 			#ifdef _WIN32
 			ENCLOSE_IO_SET_LAST_ERROR;
 			#endif
-- 
2.43.0


From 189eb2f0bd7decdbe2182c552ba1efe16450b305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:34 +0000
Subject: [PATCH 29/43] fix: sample: release the global lock when the work
 directory cannot be made

---
 sample/enclose_io_unix.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 77163ec..b8b3e85 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -93,6 +93,7 @@ static char * enclose_io_mkdir_workdir()
 			generic_mkdir_workdir = squash_tmpf(squash_tmpdir(), NULL);
 			if (NULL == generic_mkdir_workdir) {
 				mkdir_workdir = NULL;
+				MUTEX_UNLOCK(&squash_global_mutex);
 				return NULL;
 			}
 #ifdef _WIN32
@@ -101,6 +102,7 @@ static char * enclose_io_mkdir_workdir()
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
+				MUTEX_UNLOCK(&squash_global_mutex);
 				return NULL;
 			}
 			if ((size_t)-1 == wcstombs(mkdir_workdir, generic_mkdir_workdir, MAX_PATH)) {
@@ -108,6 +110,7 @@ static char * enclose_io_mkdir_workdir()
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
+				MUTEX_UNLOCK(&squash_global_mutex);
 				return NULL;
 			}
 			if (mkdir(mkdir_workdir)) {
@@ -115,6 +118,7 @@ static char * enclose_io_mkdir_workdir()
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
+				MUTEX_UNLOCK(&squash_global_mutex);
 				return NULL;
 			}
 			if (atexit(mkdir_workdir_halt)) {
@@ -122,6 +126,7 @@ static char * enclose_io_mkdir_workdir()
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
+				MUTEX_UNLOCK(&squash_global_mutex);
 				return NULL;
 			}
 #else
@@ -130,12 +135,14 @@ static char * enclose_io_mkdir_workdir()
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
+				MUTEX_UNLOCK(&squash_global_mutex);
 				return NULL;
 			}
 			if (atexit(mkdir_workdir_halt)) {
 				mkdir_workdir = NULL;
 				free(generic_mkdir_workdir);
 				generic_mkdir_workdir = NULL;
+				MUTEX_UNLOCK(&squash_global_mutex);
 				return NULL;
 			}
 #endif
-- 
2.43.0


From 397df4f6d81d73e0ff2647d36296c444741b07e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:34 +0000
Subject: [PATCH 30/43] fix: sample: dlopen fails when the library cannot be
 extracted, and accepts NULL

---
 sample/enclose_io_unix.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index b8b3e85..bba7f7d 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -637,7 +637,16 @@ ssize_t enclose_io_readv(int d, const struct iovec *iov, int iovcnt)
 
 void* enclose_io_dlopen(const char* path, int mode)
 {
-    return dlopen(enclose_io_ifextract(path, NULL), mode);
+    const char *extracted;
+
+    if (NULL == path) {
+        return dlopen(NULL, mode);
+    }
+    extracted = enclose_io_ifextract(path, NULL);
+    if (NULL == extracted) {
+        return NULL;
+    }
+    return dlopen(extracted, mode);
 }
 
 int enclose_io_access(const char *path, int mode)
-- 
2.43.0


From 9c605346a33df9f7949bfe7cd02ec261d4094bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 31/43] fix: sample: a failed fdopendir reports its own cause
 and frees what it took

---
 sample/enclose_io_unix.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index bba7f7d..8435eac 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -440,6 +440,7 @@ DIR * enclose_io_fdopendir(int fd)
 		return fdopendir(fd);
 	}
 
+	errno = 0;
 	file = squash_global_fdtable.fds[fd];
 
 	dir = calloc(1, sizeof(SQUASH_DIR));
@@ -456,6 +457,12 @@ DIR * enclose_io_fdopendir(int fd)
 	dir->entries = NULL;
 	dir->nr = 0;
 	dir->filename = strdup(file->filename);
+	if (NULL == dir->filename)
+	{
+		free(dir);
+		errno = ENOMEM;
+		return NULL;
+	}
 	dir->fd = fd;
 	dir->actual_nr = 0;
 	dir->loc = 0;
@@ -475,6 +482,11 @@ DIR * enclose_io_fdopendir(int fd)
 		errno = ENOENT;
 		goto failure;
 	}
+	if (!S_ISDIR(dir->node.base.mode))
+	{
+		errno = ENOTDIR;
+		goto failure;
+	}
 	error = sqfs_dir_open(fs, &dir->node, &dir->dir, 0);
 	if (SQFS_OK != error)
 	{
@@ -493,6 +505,7 @@ failure:
 	if (!errno) {
 		errno = ENOENT;
 	}
+	free(dir->filename);
 	free(dir);
 	return NULL;
 }
-- 
2.43.0


From 6e9322216ea5a21e6290d607208dc3abd0b166cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:54 +0000
Subject: [PATCH 32/43] fix: sample: open does not write into the path it is
 given

---
 sample/enclose_io_unix.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 8435eac..02d5112 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1112,12 +1112,17 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 			va_start(args, flags);
 			mode = va_arg(args, mode_t);
 			va_end(args);
-			char *dir_thereof_ptr = strrchr(pathname, '/');
+			char *dir_thereof = strdup(pathname);
+			if (NULL == dir_thereof) {
+				errno = ENOMEM;
+				return enclose_io_dos_return(-1);
+			}
+			char *dir_thereof_ptr = strrchr(dir_thereof, '/');
 			if (dir_thereof_ptr) {
 				*dir_thereof_ptr = 0;
-				enclose_io_mkdir(pathname, 0777);
-				*dir_thereof_ptr = '/';
+				enclose_io_mkdir(dir_thereof, 0777);
 			}
+			free(dir_thereof);
 			if (mkdir_workdir) {
 				sqfs_path mkdir_workdir_expanded;
 				char *mkdir_workdir_expanded_head;
-- 
2.43.0


From 31ec8fd4e942827bf285d8de70e4dc950e6a0bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 33/43] fix: sample: openat passes open the number of arguments
 open was given

---
 sample/enclose_io_common.h | 2 +-
 sample/enclose_io_unix.c   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index be4eaad..c7f113d 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -152,7 +152,7 @@ char *enclose_io_getwd(char *buf);
 int enclose_io_stat(const char *path, struct stat *buf);
 int enclose_io_fstat(int fildes, struct stat *buf);
 int enclose_io_open(int nargs, const char *pathname, int flags, ...);
-int enclose_io_openat(int fd, int nargs, const char *pathname, int flags, ...);
+int enclose_io_openat(int nargs, int dirfd, const char *pathname, int flags, ...);
 int enclose_io_close(int fildes);
 ssize_t enclose_io_read(int fildes, void *buf, size_t nbyte);
 off_t enclose_io_lseek(int fildes, off_t offset, int whence);
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 02d5112..9543f7d 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1315,7 +1315,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
     if (3 == nargs) {
         // If pathname is absolute, then dirfd is ignored.
         if (enclose_io_is_path(pathname)) {
-            return enclose_io_open(nargs, pathname, flags);
+            return enclose_io_open(2, pathname, flags);
         }
 
         // If the pathname given in pathname is relative,
@@ -1323,7 +1323,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
         // (rather than relative to the current working directory of the calling process, as is done by open(2) for a relative pathname).
         // TODO: at dirfd
         if (dirfd == AT_FDCWD && enclose_io_cwd[0] && '/' != *pathname) {
-            return enclose_io_open(nargs, pathname, flags);
+            return enclose_io_open(2, pathname, flags);
         }
 
         return openat(dirfd, pathname, flags);
@@ -1338,7 +1338,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
 
         // If pathname is absolute, then dirfd is ignored.
         if (enclose_io_is_path(pathname)) {
-            return enclose_io_open(nargs, pathname, flags, mode);
+            return enclose_io_open(3, pathname, flags, mode);
         }
 
         // If the pathname given in pathname is relative,
@@ -1346,7 +1346,7 @@ int enclose_io_openat(int nargs, int dirfd, const char* pathname, int flags, ...
         // (rather than relative to the current working directory of the calling process, as is done by open(2) for a relative pathname).
         // TODO: at dirfd
         if (dirfd == AT_FDCWD && enclose_io_cwd[0] && '/' != *pathname) {
-            return enclose_io_open(nargs, pathname, flags, mode);
+            return enclose_io_open(3, pathname, flags, mode);
         }
 
         return openat(dirfd, pathname, flags, mode);
-- 
2.43.0


From 5a522ef551674d60f2f7b27dfe7b0b241f7cc324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:27 +0000
Subject: [PATCH 34/43] fix: sample: refuse paths that do not fit instead of
 using a part of them

---
 sample/enclose_io_common.h |  6 ++++++
 sample/enclose_io_unix.c   | 18 ++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/sample/enclose_io_common.h b/sample/enclose_io_common.h
index c7f113d..cb268cc 100644
--- a/sample/enclose_io_common.h
+++ b/sample/enclose_io_common.h
@@ -95,6 +95,12 @@ short enclose_io_is_relative_w(wchar_t *pathname);
 	} \
 	return(RETURN1)
 
+#define ENCLOSE_IO_REFUSE_LONG_NAME(path, RETURN) \
+			if (SQUASHFS_PATH_LEN - strlen(enclose_io_cwd) < strlen(path)) { \
+				errno = ENAMETOOLONG; \
+				return(RETURN); \
+			}
+
 #define ENCLOSE_IO_GEN_EXPANDED_NAME(path)	\
 			enclose_io_cwd_len = strlen(enclose_io_cwd); \
 			memcpy(enclose_io_expanded, enclose_io_cwd, enclose_io_cwd_len); \
diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 9543f7d..04023bc 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -221,6 +221,7 @@ int enclose_io_mkdir(const char *path, mode_t mode)
 		const char* workdir;
 		const char* workdir_path;
 
+		ENCLOSE_IO_REFUSE_LONG_NAME(path, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		ret = squash_stat(enclose_io_fs, enclose_io_expanded, &buf);
 		workdir = enclose_io_mkdir_workdir();
@@ -344,6 +345,7 @@ int enclose_io_execv(const char *path, char *const argv[])
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_REFUSE_LONG_NAME(path, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		return enclose_io__exec(enclose_io_expanded, argv);
 	} else if (enclose_io_is_path(path)) {
@@ -359,6 +361,7 @@ int enclose_io_lstat(const char *path, struct stat *buf)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_REFUSE_LONG_NAME(path, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
@@ -382,6 +385,7 @@ ssize_t enclose_io_readlink(const char *path, char *buf, size_t bufsize)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_REFUSE_LONG_NAME(path, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
@@ -407,6 +411,7 @@ DIR * enclose_io_opendir(const char *filename)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_REFUSE_LONG_NAME(filename, NULL);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(filename);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
@@ -578,6 +583,7 @@ int enclose_io_scandir(const char *dirname, struct SQUASH_DIRENT ***namelist,
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_REFUSE_LONG_NAME(dirname, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(dirname);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
@@ -669,6 +675,7 @@ int enclose_io_access(const char *path, int mode)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_REFUSE_LONG_NAME(path, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
@@ -720,6 +727,7 @@ SQUASH_OS_PATH enclose_io_ifextract(const char* path, const char* ext_name)
         sqfs_path enclose_io_expanded;
         size_t enclose_io_cwd_len;
         size_t memcpy_len;
+        ENCLOSE_IO_REFUSE_LONG_NAME(path, NULL);
         ENCLOSE_IO_GEN_EXPANDED_NAME(path);
         return squash_extract(enclose_io_fs, enclose_io_expanded, ext_name);
     }
@@ -751,9 +759,17 @@ int enclose_io_chdir(const char *path)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_REFUSE_LONG_NAME(path, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		return enclose_io_chdir(enclose_io_expanded);
 	} else if (enclose_io_is_path(path)) {
+		if (SQUASHFS_PATH_LEN - 1 < strlen(path)) {
+			errno = ENAMETOOLONG;
+			#ifdef _WIN32
+			ENCLOSE_IO_SET_LAST_ERROR;
+			#endif
+			return -1;
+		}
 		if (mkdir_workdir) {
 			sqfs_path mkdir_workdir_expanded;
 			char *mkdir_workdir_expanded_head;
@@ -1015,6 +1031,7 @@ int enclose_io_stat(const char *path, struct stat *buf)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_REFUSE_LONG_NAME(path, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
 			enclose_io_expanded,
@@ -1047,6 +1064,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 		sqfs_path enclose_io_expanded;
 		size_t enclose_io_cwd_len;
 		size_t memcpy_len;
+		ENCLOSE_IO_REFUSE_LONG_NAME(pathname, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(pathname);
 		if (!(O_CREAT & flags)) {
 			ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN(
-- 
2.43.0


From fd56f767fdf53e24b00ed4f758a326ba7b9b2939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 35/43] fix: sample: mkdir of something that is in the image
 does not hide it

---
 sample/enclose_io_unix.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 04023bc..c24efd4 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -209,7 +209,8 @@ static int enclose_io_mkdir_consult(char *path, mode_t mode) {
 #endif
 }
 
-int enclose_io_mkdir(const char *path, mode_t mode)
+/* for_create: `path` may be a directory of the image, in which a file is to be created */
+static int enclose_io_mkdir_inner(const char *path, mode_t mode, short for_create)
 {
 	if (enclose_io_cwd[0] && '/' != *path) {
 		struct stat buf;
@@ -224,6 +225,10 @@ int enclose_io_mkdir(const char *path, mode_t mode)
 		ENCLOSE_IO_REFUSE_LONG_NAME(path, -1);
 		ENCLOSE_IO_GEN_EXPANDED_NAME(path);
 		ret = squash_stat(enclose_io_fs, enclose_io_expanded, &buf);
+		if (0 == ret && !for_create) {
+			errno = EEXIST;
+			return -1;
+		}
 		workdir = enclose_io_mkdir_workdir();
 		if (NULL == workdir) {
 			errno = ENOENT;
@@ -252,6 +257,10 @@ int enclose_io_mkdir(const char *path, mode_t mode)
 		const char* workdir_path;
 
 		ret = squash_stat(enclose_io_fs, path, &buf);
+		if (0 == ret && !for_create) {
+			errno = EEXIST;
+			return -1;
+		}
 		workdir = enclose_io_mkdir_workdir();
 		if (NULL == workdir) {
 			errno = ENOENT;
@@ -277,6 +286,11 @@ int enclose_io_mkdir(const char *path, mode_t mode)
 	}
 }
 
+int enclose_io_mkdir(const char *path, mode_t mode)
+{
+	return enclose_io_mkdir_inner(path, mode, 0);
+}
+
 #ifdef _WIN32
 int enclose_io__wmkdir(wchar_t* pathname)
 {
@@ -1082,7 +1096,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 			char *dir_thereof_ptr = strrchr(enclose_io_expanded, '/');
 			if (dir_thereof_ptr) {
 				*dir_thereof_ptr = 0;
-				enclose_io_mkdir(enclose_io_expanded, 0777);
+				enclose_io_mkdir_inner(enclose_io_expanded, 0777, 1);
 				*dir_thereof_ptr = '/';
 			}
 			if (mkdir_workdir) {
@@ -1138,7 +1152,7 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 			char *dir_thereof_ptr = strrchr(dir_thereof, '/');
 			if (dir_thereof_ptr) {
 				*dir_thereof_ptr = 0;
-				enclose_io_mkdir(dir_thereof, 0777);
+				enclose_io_mkdir_inner(dir_thereof, 0777, 1);
 			}
 			free(dir_thereof);
 			if (mkdir_workdir) {
-- 
2.43.0


From 0bd3e30675b4b40f70d5c37537c8d4ab9a09969a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 36/43] fix: sample: exec reports a failed allocation instead
 of asserting

---
 sample/enclose_io_unix.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index c24efd4..e030dd5 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -326,6 +326,10 @@ int enclose_io__exec(const char *path, char *const argv[])
 	size_t exec_path_len = 2 * PATH_MAX;
 	char* exec_path = (char*)(malloc(exec_path_len));
 
+	if (NULL == exec_path) {
+		errno = ENOMEM;
+		return -1;
+	}
 	ret = enclose_io_exepath(exec_path, &exec_path_len);
 	assert(0 == ret);
 
@@ -336,7 +340,11 @@ int enclose_io__exec(const char *path, char *const argv[])
 	argc = 1;
 	while (argv[argc]) { ++argc; }
 	new_argv = (char **)malloc( (2 + argc) * sizeof(char *));
-	assert(new_argv);
+	if (NULL == new_argv) {
+		free(exec_path);
+		errno = ENOMEM;
+		return -1;
+	}
 	new_argv[0] = argv[0];
 	new_argv[1] = path;
 	for (i = 1; i < argc; ++i) {
-- 
2.43.0


From b95570c624788c14e20b7e8ce08266a830c33f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:39 +0000
Subject: [PATCH 37/43] fix: a data block that does not hold what the file has
 there is an error

---
 src/file.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/file.c b/src/file.c
index cbe3a12..0e04121 100644
--- a/src/file.c
+++ b/src/file.c
@@ -148,6 +148,8 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 			cache = &fs->frag_cache;
 			MUTEX_LOCK(&cache->mutex);
 			err = sqfs_frag_block(fs, inode, &data_off, &data_size, &block);
+			if (!err && (data_off > block->size || data_size > block->size - data_off))
+				err = SQFS_ERR; /* the block holds less than it should */
 			if (err) {
 				MUTEX_UNLOCK(&cache->mutex);
 				return err;
@@ -168,6 +170,11 @@ sqfs_err sqfs_read_range(sqfs *fs, sqfs_inode *inode, sqfs_off_t start,
 				MUTEX_LOCK(&cache->mutex);
 				err = sqfs_data_cache(fs, cache, bl.block,
 					bl.header, &block);
+				/* it holds what the file has there, no less and no more */
+				if (!err && (block->size > block_size
+						|| block->size > file_size - bl.pos
+						|| (block->size < block_size && block->size < file_size - bl.pos)))
+					err = SQFS_ERR;
 				if (err) {
 					MUTEX_UNLOCK(&cache->mutex);
 					return err;
-- 
2.43.0


From 2d10b796442f1a15bfa1b1cc1b058722ced1514d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 38/43] fix: sample: the name of the temporary directory is not
 kept when the working copy is named

---
 sample/enclose_io_unix.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index e030dd5..22503dc 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -90,7 +90,9 @@ static char * enclose_io_mkdir_workdir()
 	if (NULL == mkdir_workdir) {
 		MUTEX_LOCK(&squash_global_mutex);
 		if (NULL == mkdir_workdir) {
-			generic_mkdir_workdir = squash_tmpf(squash_tmpdir(), NULL);
+			SQUASH_OS_PATH tmpdir = squash_tmpdir();
+			generic_mkdir_workdir = tmpdir ? squash_tmpf(tmpdir, NULL) : NULL;
+			free((void *)tmpdir);
 			if (NULL == generic_mkdir_workdir) {
 				mkdir_workdir = NULL;
 				MUTEX_UNLOCK(&squash_global_mutex);
-- 
2.43.0


From 0ebe4348ffba7d42832d124a3783f875e1b2e5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 39/43] fix: sample: the directories that lead to a new one do
 not get its mode

---
 sample/enclose_io_unix.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 22503dc..fd39dcf 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -188,7 +188,8 @@ static int enclose_io_mkdir_consult(char *path, mode_t mode) {
 #ifdef _WIN32
 					mkdir(path2);
 #else
-					mkdir(path2, mode);
+					/* the caller's mode is that of what it makes; these only lead there */
+					mkdir(path2, (buf.st_mode & 0777) | S_IRWXU);
 #endif
 					free(path2);
 				}
-- 
2.43.0


From 1db759f3918bb8ab0c1f211213593e063f1fc6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 40/43] fix: sample: O_CREAT of a name that the image has opens
 it, or fails with EEXIST or EISDIR

---
 sample/enclose_io_unix.c | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index fd39dcf..f753926 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -1083,6 +1083,31 @@ int enclose_io_fstat(int fildes, struct stat *buf)
 	}
 }
 
+/* O_CREAT of a name that the image has: is the call settled without making anything? */
+static short enclose_io_open_existing(const char *path, int flags, int *fd)
+{
+	struct stat buf;
+
+	*fd = -1;
+	if (0 != ((O_EXCL & flags) ? squash_lstat : squash_stat)(enclose_io_fs, path, &buf)) {
+		/* only what is not there can be made */
+		return ENOENT != errno && ENOTDIR != errno;
+	}
+	if (O_EXCL & flags) {
+		errno = EEXIST;
+		return 1;
+	}
+	if (S_ISDIR(buf.st_mode)) {
+		errno = EISDIR;
+		return 1;
+	}
+	if (!((O_WRONLY | O_RDWR | O_TRUNC) & flags)) {
+		*fd = enclose_io_open(2, path, flags & ~O_CREAT);
+		return 1;
+	}
+	return 0;
+}
+
 int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 {
 	if (enclose_io_cwd[0] && '/' != *pathname) {
@@ -1100,10 +1125,14 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 		} else {
 			va_list args;
 			mode_t mode;
+			int fd;
 			assert(3 == nargs);
 			va_start(args, flags);
 			mode = va_arg(args, mode_t);
 			va_end(args);
+			if (enclose_io_open_existing(enclose_io_expanded, flags, &fd)) {
+				return enclose_io_dos_return(fd);
+			}
 			char *dir_thereof_ptr = strrchr(enclose_io_expanded, '/');
 			if (dir_thereof_ptr) {
 				*dir_thereof_ptr = 0;
@@ -1151,10 +1180,14 @@ int enclose_io_open(int nargs, const char *pathname, int flags, ...)
 		} else {
 			va_list args;
 			mode_t mode;
+			int fd;
 			assert(3 == nargs);
 			va_start(args, flags);
 			mode = va_arg(args, mode_t);
 			va_end(args);
+			if (enclose_io_open_existing(pathname, flags, &fd)) {
+				return enclose_io_dos_return(fd);
+			}
 			char *dir_thereof = strdup(pathname);
 			if (NULL == dir_thereof) {
 				errno = ENOMEM;
-- 
2.43.0


From a74474d34fabb6d711d139e849732ee17899f29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 41/43] fix: sample: creating a file does not make the
 directory it would lie in

---
 sample/enclose_io_unix.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index f753926..2ca7792 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -154,6 +154,18 @@ static char * enclose_io_mkdir_workdir()
 	return mkdir_workdir;
 }
 
+/* the mount point itself is there to make things in, whether or not the image has it */
+static short enclose_io_is_mount_point(const char *path)
+{
+	size_t len = strlen(enclose_io_mkdir_scope);
+
+	if (0 != strncmp(path, enclose_io_mkdir_scope, len)) {
+		return 0;
+	}
+	for (path += len; '/' == *path; ++path) {}
+	return 0 == *path;
+}
+
 static int enclose_io_mkdir_consult(char *path, mode_t mode) {
 	int ret;
 	char *head = NULL;
@@ -232,6 +244,13 @@ static int enclose_io_mkdir_inner(const char *path, mode_t mode, short for_creat
 			errno = EEXIST;
 			return -1;
 		}
+		if (for_create && !(0 == ret && S_ISDIR(buf.st_mode)) && !enclose_io_is_mount_point(enclose_io_expanded)) {
+			/* not a directory of the image: nothing to make for the file's sake */
+			if (0 == ret) {
+				errno = ENOTDIR;
+			}
+			return -1;
+		}
 		workdir = enclose_io_mkdir_workdir();
 		if (NULL == workdir) {
 			errno = ENOENT;
@@ -264,6 +283,13 @@ static int enclose_io_mkdir_inner(const char *path, mode_t mode, short for_creat
 			errno = EEXIST;
 			return -1;
 		}
+		if (for_create && !(0 == ret && S_ISDIR(buf.st_mode)) && !enclose_io_is_mount_point(path)) {
+			/* not a directory of the image: nothing to make for the file's sake */
+			if (0 == ret) {
+				errno = ENOTDIR;
+			}
+			return -1;
+		}
 		workdir = enclose_io_mkdir_workdir();
 		if (NULL == workdir) {
 			errno = ENOENT;
-- 
2.43.0


From dedb5ffb2908f3d32475cbb6320432ca79d60974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:45 +0000
Subject: [PATCH 42/43] fix: sample: a directory that cannot be made leaves no
 copies of its ancestors behind

---
 sample/enclose_io_unix.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index 2ca7792..ae7bdc9 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -173,6 +173,7 @@ static int enclose_io_mkdir_consult(char *path, mode_t mode) {
 	char *p_left = NULL;
 	struct stat buf;
 	char *path2;
+	char *parent;
 
 	while (strlen(path) - 1 >= 0 && '/' == path[strlen(path) - 1]) {
 		path[strlen(path) - 1] = 0;
@@ -184,6 +185,25 @@ static int enclose_io_mkdir_consult(char *path, mode_t mode) {
 		return -1;
 	}
 
+	/* without a directory to make it in nothing is made, its ancestors included */
+	parent = strdup(path);
+	if (NULL == parent) {
+		return -1;
+	}
+	*strrchr(parent, '/') = 0;
+	if (!enclose_io_is_mount_point(parent + (head-path))) {
+		ret = enclose_io_stat(parent + (head-path), &buf);
+		if (0 == ret && !S_ISDIR(buf.st_mode)) {
+			errno = ENOTDIR;
+			ret = -1;
+		}
+		if (0 != ret) {
+			free(parent);
+			return -1;
+		}
+	}
+	free(parent);
+
 	for (p = head + strlen(enclose_io_mkdir_scope) + 1; *p; p++) {
 		if (*p == '/') {
 			*p = 0;
-- 
2.43.0


From 0aa5fa8a11af4288fb70bc1586a6fc9459c46777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 43/43] fix: sample: mkdir does not take a lookup that failed
 for an absent name

---
 sample/enclose_io_unix.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sample/enclose_io_unix.c b/sample/enclose_io_unix.c
index ae7bdc9..8c64f42 100644
--- a/sample/enclose_io_unix.c
+++ b/sample/enclose_io_unix.c
@@ -264,6 +264,9 @@ static int enclose_io_mkdir_inner(const char *path, mode_t mode, short for_creat
 			errno = EEXIST;
 			return -1;
 		}
+		if (0 != ret && ENOENT != errno && ENOTDIR != errno) {
+			return -1;
+		}
 		if (for_create && !(0 == ret && S_ISDIR(buf.st_mode)) && !enclose_io_is_mount_point(enclose_io_expanded)) {
 			/* not a directory of the image: nothing to make for the file's sake */
 			if (0 == ret) {
@@ -303,6 +306,9 @@ static int enclose_io_mkdir_inner(const char *path, mode_t mode, short for_creat
 			errno = EEXIST;
 			return -1;
 		}
+		if (0 != ret && ENOENT != errno && ENOTDIR != errno) {
+			return -1;
+		}
 		if (for_create && !(0 == ret && S_ISDIR(buf.st_mode)) && !enclose_io_is_mount_point(path)) {
 			/* not a directory of the image: nothing to make for the file's sake */
 			if (0 == ret) {
-- 
2.43.0

