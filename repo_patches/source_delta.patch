From d02c4c895cecacacb4a83336a88bfb9d0b4636e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 01/90] fix: clamp the length of truncated messages in _out and
 _err

vsnprintf returns the untruncated length; using it as an index wrote past
the stack buffer for any message longer than it.
---
 src/cjit.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cjit.c b/src/cjit.c
index 329b976..e0a6ce5 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -700,6 +700,8 @@ void _out(const char *fmt, ...) {
   va_start(args, fmt);
   int len = vsnprintf(msg, MAX_STRING, fmt, args);
   va_end(args);
+  if(len<0) len = 0;
+  if(len>=MAX_STRING) len = MAX_STRING-1; // message was truncated
   msg[len] = '\n';
   msg[len+1] = 0x0; //safety
   if(write(fileno(stdout), msg, len+1) <0)
@@ -714,6 +716,8 @@ void _err(const char *fmt, ...) {
   va_start(args, fmt);
   len = vsnprintf(msg, MAX_STRING, fmt, args);
   va_end(args);
+  if(len<0) len = 0;
+  if(len>=MAX_STRING) len = MAX_STRING-1; // message was truncated
   msg[len] = '\n';
   msg[len+1] = 0x0;
   if(write(fileno(stderr),msg,len+1) <0)
-- 
2.43.0


From dbb7f15ee6959c46e786b202c961c593fe42f150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 02/90] fix: advance past an ambiguous long option

ketopt returned '?' without consuming the argument, so the option loop in
main() never ended (e.g. "cjit --x file.c").
---
 src/ketopt.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ketopt.h b/src/ketopt.h
index 2053d09..e016f12 100644
--- a/src/ketopt.h
+++ b/src/ketopt.h
@@ -83,8 +83,9 @@ static int ketopt(ketopt_t *s, int argc, char *argv[], int permute, const char *
 					if (longopts[k].name[j - 2] == 0) ++n_exact, o_exact = &longopts[k];
 					else ++n_partial, o_partial = &longopts[k];
 				}
-			if (n_exact > 1 || (n_exact == 0 && n_partial > 1)) return '?';
-			o = n_exact == 1? o_exact : n_partial == 1? o_partial : 0;
+			// ambiguous names fall through as unknown, so that parsing advances
+			if (n_exact > 1 || (n_exact == 0 && n_partial > 1)) o = 0;
+			else o = n_exact == 1? o_exact : n_partial == 1? o_partial : 0;
 			if (o) {
 				s->opt = opt = o->val, s->longidx = o - longopts;
 				if (   argv[s->i][j] == '=') s->arg = &argv[s->i][j + 1];
-- 
2.43.0


From f0a5cd8aa6e5cec746c746420636dd6f559d0966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 03/90] fix: --xass prints the path verbatim and reports
 extraction failures

The user supplied path was used as a format string (and NULL was printed
when the directory could not be made); the exit status was always 0.
---
 src/main.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/main.c b/src/main.c
index da30183..a2ef29e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -247,15 +247,16 @@ int main(int argc, char **argv) {
 #endif
 #if !defined(SHAREDTCC)
 	  } else if (c == 401) { // --xass
+		  bool extracted;
 		  if(opt.arg) {
-			  _err("Extracting runtime assets to:",opt.arg);
-			  extract_assets(CJIT,opt.arg);
+			  _err("Extracting runtime assets to: %s",opt.arg);
+			  extracted = extract_assets(CJIT,opt.arg);
 		  } else {
-			  extract_assets(CJIT,NULL);
+			  extracted = extract_assets(CJIT,NULL);
 		  }
-		  _out(CJIT->tmpdir);
+		  if(extracted) _out("%s",CJIT->tmpdir);
 		  cjit_free(CJIT);
-		  exit(0);
+		  exit(extracted ? 0 : 1);
 #endif
 	  } else if (c == 501) { // --xtgz
 		  cjit_free(CJIT);
-- 
2.43.0


From 7c8459b3f190bd0107d35b439f7903ddc2f99bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 04/90] fix: --xtgz exits non-zero when the extraction fails

---
 src/main.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index a2ef29e..5807e3e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -266,8 +266,9 @@ int main(int argc, char **argv) {
 			  file_load(opt.arg, &len);
 		  if(!targz) exit(1);
 		  if(!len) exit(1);
-		  muntargz_to_path(".",targz,len);
-		  exit(0);
+		  res = muntargz_to_path(".",targz,len);
+		  free((void*)targz);
+		  exit(res==0 ? 0 : 1);
 	  }
 	  else if (c == '?') _err("unknown opt: -%c\n", opt.opt? opt.opt : ':');
 	  else if (c == ':') _err("missing arg: -%c\n", opt.opt? opt.opt : ':');
-- 
2.43.0


From f29aa20883c34871f00b3fa01142462553b8b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 05/90] fix: a source file that cannot be added or compiled
 fails the run

The results of cjit_add_file and tcc_compile_string were dropped, so cjit
went on without the missing file and could exit with status 0; cjit_link
returns 1, not a negative value, for its own errors.
---
 src/cjit.c | 4 ++--
 src/main.c | 7 +++----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index e0a6ce5..83bd9eb 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -454,10 +454,10 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 			free(tmp);
 		}
 	}
-	tcc_compile_string(tcc(cjit),contents);
+	res = tcc_compile_string(tcc(cjit),contents);
 	free(contents);
 	debug("+S %s",path);
-	return true;
+	return((res<0)?false:true);
 }
 
 bool cjit_add_file(CJITState *cjit, const char *path) {
diff --git a/src/main.c b/src/main.c
index 5807e3e..3e9fc64 100644
--- a/src/main.c
+++ b/src/main.c
@@ -134,8 +134,7 @@ int main(int argc, char **argv) {
 	  int res = 0;
 	  CJIT->output_filename = "a.out";
 	  cjit_set_output(CJIT, EXE);
-	  cjit_add_file(CJIT, argv[1]);
-	  if(cjit_link(CJIT)<0) {
+	  if(!cjit_add_file(CJIT, argv[1]) || cjit_link(CJIT)!=0) {
 		  _err("Error in linker compiling to file: %s",
 		       CJIT->output_filename);
 		  res = 1;
@@ -370,7 +369,7 @@ int main(int argc, char **argv) {
 				  goto endgame;
 			  } else free(stdin_code);
 		  } else { // load any file path
-			  cjit_add_file(CJIT, code_path);
+			  if(!cjit_add_file(CJIT, code_path)) goto endgame;
 		  }
 	  }
   }
@@ -380,7 +379,7 @@ int main(int argc, char **argv) {
   if(CJIT->print_status) cjit_status(CJIT);
   if(CJIT->output_filename) {
 	  _err("Create executable: %s", CJIT->output_filename);
-	  if(cjit_link(CJIT)<0) {
+	  if(cjit_link(CJIT)!=0) {
 		  _err("Error in linker compiling to file: %s",
 		       CJIT->output_filename);
 		  res = 1;
-- 
2.43.0


From 07ffc1a4cc123a76417dd8de6101890882725b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 06/90] fix: -c reports compile and output errors

A source with errors produced a bogus object file and exit status 0.
---
 src/cjit.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 83bd9eb..85e1d26 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -500,12 +500,16 @@ bool cjit_compile_file(CJITState *cjit, const char *path) {
 		return false;
 	}
 	setup;
-	tcc_add_file(tcc(cjit), path);
+	if(tcc_add_file(tcc(cjit), path)<0) {
+		_err("%s: error: %s",__func__, path);
+		return false;
+	}
+	int res;
 	if(cjit->output_filename) {
 		if(!cjit->quiet)
 			_err("Compiling: %s -> %s",path,
 			     cjit->output_filename);
-		tcc_output_file(tcc(cjit),
+		res = tcc_output_file(tcc(cjit),
 				cjit->output_filename);
 	} else {
 		char *ext;
@@ -520,10 +524,10 @@ bool cjit_compile_file(CJITState *cjit, const char *path) {
 		strcpy(ext,".o");
 		if(!cjit->quiet)
 			_err("Compiling: %s -> %s",path,tmp);
-		tcc_output_file(tcc(cjit),tmp);
+		res = tcc_output_file(tcc(cjit),tmp);
 		free(tmp);
 	}
-	return true;
+	return((res<0)?false:true);
 }
 
 // link all setup and create an executable file
-- 
2.43.0


From 7466956849f696b3556385f8552bb879b61ed576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 07/90] fix: stop when the compiler set-up fails

The result of cjit_setup was ignored: sources were compiled with the
default output type and without the runtime assets.
---
 src/cjit.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 85e1d26..3208a78 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -34,7 +34,7 @@
 #include <sys/stat.h> // fstat(2)
 
 #define tcc(cjit) (TCCState*)cjit->TCC
-#define setup if(!cjit->done_setup)cjit_setup(cjit)
+#define setup if(!cjit->done_setup && !cjit_setup(cjit))return(false)
 #define debug(fmt,par) if(cjit->verbose)_err(fmt,par)
 #define add(buf,s) if(s!=NULL)XArray_AddData((xarray_t*)cjit->buf,(char*)s,strlen(s)+1); else _err("!!! NULL var added to array: %s","buf")
 
@@ -186,7 +186,7 @@ static bool cjit_setup(CJITState *cjit) {
 	// extract all runtime assets to tmpdir
 	if(!extract_assets(cjit,NULL)) {
 		fail("error extracting assets in temp dir");
-		return(NULL);
+		return(false);
 	}
 #endif
 	tcc_set_output_type(tcc(cjit), cjit->tcc_output);
-- 
2.43.0


From a946ce1ff7e1042648267885f7db07ac940c7a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 08/90] fix: report fork and wait failures in cjit_exec

A failed fork waited for pid -1 and a failed wait read an uninitialised
status; the message passed a NULL entry name to %s.
---
 src/cjit.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cjit.c b/src/cjit.c
index 3208a78..a049157 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -607,6 +607,10 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 	pid_t pid;
 	cjit->done_exec = true;
 	pid = fork();
+	if (pid < 0) {
+		fail("fork");
+		return -1;
+	}
 	if (pid == 0) {
 		res = _ep(argc, argv);
 		exit(res);
@@ -626,7 +630,8 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 		int ret;
 		ret = waitpid(pid, &status, WUNTRACED | WCONTINUED);
 		if (ret != pid){
-			_err("Wait error in source: %s",cjit->entry);
+			_err("Wait error in source: %s",cjit->entry?cjit->entry:"main");
+			return -1;
 		}
 		if (WIFEXITED(status)) {
 			res = WEXITSTATUS(status);
-- 
2.43.0


From 5fc1853b25959167a0ec042963751c5eb3d8d426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 09/90] fix: open the pid file before forking

When it could not be created cjit returned at once and left the program
running without anybody waiting for it.
---
 src/cjit.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index a049157..07c001f 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -605,26 +605,29 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 	return(res);
 #else // we assume anything else but WINDOWS has fork()
 	pid_t pid;
+	FILE *pidfile = NULL;
+	if(cjit->write_pid) {
+		pidfile = fopen(cjit->write_pid, "w");
+		if(!pidfile) {
+			fail(cjit->write_pid);
+			_err("Cannot create pid file");
+			return -1;
+		}
+	}
 	cjit->done_exec = true;
 	pid = fork();
 	if (pid < 0) {
 		fail("fork");
+		if(pidfile) fclose(pidfile);
 		return -1;
 	}
 	if (pid == 0) {
 		res = _ep(argc, argv);
 		exit(res);
 	} else {
-		if(cjit->write_pid) {
-			// pid_t pid = getpid();
-			FILE *fd = fopen(cjit->write_pid, "w");
-			if(!fd) {
-				fail(cjit->write_pid);
-				_err("Cannot create pid file");
-				return -1;
-			}
-			fprintf(fd,"%d\n",pid);
-			fclose(fd);
+		if(pidfile) {
+			fprintf(pidfile,"%d\n",pid);
+			fclose(pidfile);
 		}
 		int status;
 		int ret;
-- 
2.43.0


From 94f1eaa25ac3f1ca4d7bc503c047b1f12db59b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 10/90] fix: file_load rejects files whose size is unknown

ftell returns -1 on a pipe; stored in a size_t it allocated zero bytes and
read without limit into them.
---
 src/file.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index 7b15a64..67f5ca2 100644
--- a/src/file.c
+++ b/src/file.c
@@ -46,10 +46,11 @@ static long file_size(const char *filename) {
 }
 
 char* file_load(const char *filename, unsigned int *len) {
-    size_t length = file_size(filename);
-    if (length < 1) {
+    long fsize = file_size(filename);
+    if (fsize < 1) {
         return NULL;
     }
+    size_t length = fsize;
 
     FILE *file = fopen(filename, "rb");
     if (file == NULL) {
-- 
2.43.0


From be56af5ab6a55b32a17361d914dd9962ac7dd0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 11/90] fix: short reads release the file and buffer and name
 the file

fail() was given the FILE pointer as a string.
---
 src/cjit.c | 3 ++-
 src/file.c | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 07c001f..2b40015 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -437,7 +437,8 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 	strcpy(contents,spath);
 	free(spath);
 	if(0== fread(contents+spath_len, 1, length, file)) {
-		fail(file);
+		fail(path);
+		free(contents);
 		fclose(file);
 		return false;
 	}
diff --git a/src/file.c b/src/file.c
index 67f5ca2..363af0b 100644
--- a/src/file.c
+++ b/src/file.c
@@ -68,7 +68,9 @@ char* file_load(const char *filename, unsigned int *len) {
     // _err("Loading source file %s",filename);
 
     if(fread(contents, 1, length, file)<length) {
-		fail(file);
+		fail(filename);
+		free(contents);
+		fclose(file);
 		return NULL;
 	}
 
-- 
2.43.0


From 0ce0f40572d5f9b70cbdd6783e1157ce34c32fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 12/90] fix: load_stdin appends the first line to an empty
 string

strcat scanned the uninitialised block returned by the first realloc.
---
 src/file.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index 363af0b..f97475d 100644
--- a/src/file.c
+++ b/src/file.c
@@ -97,12 +97,15 @@ char *load_stdin() {
 			free(line);
 			break;
 		}
-		code = realloc(code, (code?strlen(code):0) + len + 1);
-		if (!code) {
+		char *more = realloc(code, (code?strlen(code):0) + len + 1);
+		if (!more) {
 			fail("malloc error");
+			free(code);
 			free(line);
 			return NULL;
 		}
+		if (!code) more[0] = 0x0;
+		code = more;
 		strcat(code, line);
 		free(line);
 		line = NULL;
-- 
2.43.0


From 335cee4fc51e3f88a5fb4f6e06b9b35b337f7a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 13/90] fix: decodeTarOctal stays inside the field

A field without terminator took the first byte of the next field as its
last digit.
---
 src/muntar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muntar.c b/src/muntar.c
index 3a484c1..45a5470 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -71,7 +71,7 @@ static uint64_t decodeTarOctal(
 	const char* data,
 	size_t size )
 {
-    uint8_t* currentPtr = (uint8_t*) data + size;
+    uint8_t* currentPtr = (uint8_t*) data + size - 1;
     uint64_t sum = 0;
     uint64_t currentMultiplier = 1;
 
-- 
2.43.0


From 734893c9861abe9d35e40ff1f1f1d44aff384d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 14/90] fix: tar entries may not claim more content than the
 archive holds

The size field was used unchecked: file contents were read past the end of
the buffer, and a huge size wrapped the offset of the next header so that
the walk never ended.
---
 src/muntar.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/muntar.c b/src/muntar.c
index 45a5470..74cbf6e 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -220,6 +220,12 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 			const size_t namelen = strlen(header->name);
 			if(p-tpath+namelen>1023) return(MTAR_EOPENFAIL);
 			strcpy(p,header->name);
+			if(header->size > tar.max - tar.iterator.cursor) {
+				fprintf(stderr,
+					"Error truncated content of file: %s\n",
+					tpath);
+				return(MTAR_EREADFAIL);
+			}
 			FILE *fp = fopen(tpath,"wb");
 			if(!fp) {
 				fprintf(stderr,
@@ -313,6 +319,10 @@ int mtar_next(mtar_t *tar)
 
 	if (tar->iterator.offset == UINT64_MAX) return MTAR_ENULLRECORD;
 
+	if (tar->iterator.header.size > tar->max - tar->iterator.offset - 512) {
+		err = MTAR_EREADFAIL; // content is not all in the buffer
+		goto ESCAPE;
+	}
 	position = tar->iterator.offset + 512 + tar->iterator.header.size;
 	position = (size_t) ( (uint64_t)(position + 511) & (uint64_t) (~0x01FF) );
 	err = mtar_seek(tar, position);
-- 
2.43.0


From daa3d1db34ad6ae3a852cb89b64a43329d35118d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 15/90] fix: report write errors and corrupt headers while
 extracting

Short writes, failed closes and a bad checksum half way through ended in
success with files missing or truncated.
---
 src/muntar.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/muntar.c b/src/muntar.c
index 74cbf6e..4443927 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -234,12 +234,22 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 				perror("Reason: ");
 				return(MTAR_EWRITEFAIL);
 			}
-			fwrite(&tar.buffer[tar.iterator.cursor],
-			       1,header->size,fp);
-			fclose(fp);
+			const size_t written =
+				fwrite(&tar.buffer[tar.iterator.cursor],
+				       1,header->size,fp);
+			if(fclose(fp) != 0 || written != header->size) {
+				fprintf(stderr,
+					"Error writing file: %s\n",
+					tpath);
+				return(MTAR_EWRITEFAIL);
+			}
 			break;
 		}
-		mtar_next(&tar);
+		res = mtar_next(&tar);
+		if(res == MTAR_EBADCHKSUM || res == MTAR_EREADFAIL) {
+			fprintf(stderr,"Error in tar archive after: %s\n",tpath);
+			return(res);
+		}
 	}
 	return(MTAR_ESUCCESS);
 }
-- 
2.43.0


From d4438a47791347047a172752801c8f1327dcc71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 16/90] fix: refuse tar entries with .. components

Archive members could be written anywhere outside of the extraction path.
---
 src/muntar.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/muntar.c b/src/muntar.c
index 4443927..e180caf 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -165,6 +165,18 @@ static int mtar_rewind(mtar_t *tar) {
 #define makedir(path) mkdir(path,0755)
 #endif
 
+// true if a ".." component leads outside of the extraction path
+static int leads_outside(const char *name) {
+	const char *c = name;
+	while(*c) {
+		const size_t len = strcspn(c, "/\\");
+		if(len==2 && c[0]=='.' && c[1]=='.') return 1;
+		c += len;
+		if(*c) c++;
+	}
+	return 0;
+}
+
 // used by extract_assets(char *tmpdir)
 int muntar_to_path(const char *path, const uint8_t *buf,
 		  const unsigned int len) {
@@ -185,6 +197,11 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 		p = tpath+pathlen;
 		*p = '/'; p++;
 		mtar_header(&tar, &header);
+		if(leads_outside(header->path) || leads_outside(header->name)) {
+			fprintf(stderr,"Error path outside of extraction dir: %s\n",
+				header->name);
+			return(MTAR_EFAILURE);
+		}
 		switch(header->type) {
 		case MTAR_TDIR:
 			if(header->path[0]!=0) { // subdir
@@ -208,6 +225,11 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 		p = tpath+pathlen;
 		*p = '/'; p++;
 		mtar_header(&tar, &header);
+		if(leads_outside(header->path) || leads_outside(header->name)) {
+			fprintf(stderr,"Error path outside of extraction dir: %s\n",
+				header->name);
+			return(MTAR_EFAILURE);
+		}
 		switch(header->type) {
 		case MTAR_TREG:
 			if(header->path[0]!=0) { // subdir
-- 
2.43.0


From 9cc81d262d908c9fd0dde98f286a6ac3b577f1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 17/90] fix: muntargz_to_path returns its errors

It called exit() under its callers' feet, which check the result and have
their own state to release, and did not check the allocation.
---
 src/muntar.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/muntar.c b/src/muntar.c
index e180caf..7977d6e 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -295,6 +295,10 @@ int muntargz_to_path(const char *path, const uint8_t *buf,
 	int res;
 	unsigned int destlen = len*DECOMPRESSED_SIZE_RATIO;
 	uint8_t *dest = malloc(destlen);
+	if(!dest) {
+		fprintf(stderr,"%s: out of memory\n",__func__);
+		return(-1);
+	}
 	res = tinf_gzip_uncompress(dest,&destlen,buf,len);
 	// fprintf(stdout,"Compressed source length: %u\n",len);
 	// fprintf(stdout,"Uncompressed destination length: %u\n",destlen);
@@ -303,7 +307,7 @@ int muntargz_to_path(const char *path, const uint8_t *buf,
 	if(res != TINF_OK) {
 		fprintf(stderr,"Error in gunzip decompression (untargz_to_path)\n");
 		free(dest);
-		exit(res);
+		return(res);
 	}
 	res = muntar_to_path(path, dest, destlen);
 	free(dest);
-- 
2.43.0


From 43da7d36e309db8ef6d371a448753656f28b2849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 18/90] fix: cjit_mkdtemp reports a failed mkdir and frees the
 path on errors

---
 src/cjit.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 2b40015..f2ade6d 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -73,9 +73,14 @@ bool cjit_mkdtemp(CJITState *cjit, const char *optional_path) {
 		} else {
 			_err("Cannot overwrite runtime include dir: %s",tempDir);
 			// The path exists but is not a directory
+			free(tempDir);
+			return(false);
+		}
+		if(cjit->fresh && mkdir(tempDir,0755)<0) {
+			fail(tempDir);
+			free(tempDir);
 			return(false);
 		}
-		if(cjit->fresh) mkdir(tempDir,0755);
 #endif
 	} else {
 		tempDir = malloc(MAX_PATH+1);
@@ -120,9 +125,14 @@ bool cjit_mkdtemp(CJITState *cjit, const char *optional_path) {
 		} else {
 			_err("Temp dir is a file, cannot overwrite: %s",tempDir);
 			// The path exists but is not a directory
+			free(tempDir);
+			return(false);
+		}
+		if(cjit->fresh && mkdir(tempDir,0755)<0) {
+			fail(tempDir);
+			free(tempDir);
 			return(false);
 		}
-		if(cjit->fresh) mkdir(tempDir,0755);
 #endif
 	}
 	cjit->tmpdir = malloc(strlen(tempDir)+1);
-- 
2.43.0


From 4ae85be13c02fcf5a662a14548e9c73e55391243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 19/90] fix: XArray_Realloc copies only the used entries

Shrinking copied the old, larger size into the smaller block.
---
 src/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.c b/src/array.c
index 79374b0..15f4bd1 100644
--- a/src/array.c
+++ b/src/array.c
@@ -169,7 +169,7 @@ size_t XArray_Realloc(xarray_t *pArr)
             return 0;
         }
 
-        size_t nCopySize = sizeof(xarray_data_t*) * pArr->nSize;
+        size_t nCopySize = sizeof(xarray_data_t*) * nUsed;
         memcpy(pData, pArr->pData, nCopySize);
 
         free(pArr->pData);
-- 
2.43.0


From 7d2fbdc0debf4350743a5d559a4238fe1e57f087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 20/90] fix: a full fixed-size array has no space left

XArray_CheckSpace returned the size, so XArray_Add wrote past the end.
---
 src/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.c b/src/array.c
index 15f4bd1..60b3047 100644
--- a/src/array.c
+++ b/src/array.c
@@ -197,7 +197,7 @@ size_t XArray_CheckSpace(xarray_t *pArr)
         pArr->nAlloc = nAlloc;
     }
     else if (pArr->nUsed >= pArr->nSize)
-        return XArray_Realloc(pArr);
+        return XArray_Realloc(pArr) > pArr->nUsed;
 
     return pArr->pData == NULL ? 0 : 1;
 }
-- 
2.43.0


From 9d8981fe92bc08512a59ac931cb47f7981da8cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 21/90] fix: free the directory entry of an unreadable
 ld.so.conf.d file

---
 src/elflinker.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/elflinker.c b/src/elflinker.c
index 155dd51..ad9dfdc 100644
--- a/src/elflinker.c
+++ b/src/elflinker.c
@@ -91,10 +91,8 @@ bool read_ldsoconf_dir(xarray_t *dest, const char *directory) {
 			// Regular files only
 			//  || namelist[i]->d_type == DT_LNK
 			cwk_path_join(directory,namelist[i]->d_name,path,MAX_PATH);
-			if(! read_ldsoconf(dest,path) ) {
+			if(! read_ldsoconf(dest,path) )
 				fail(directory);
-				continue;
-			}
         }
         free(namelist[i]);
     }
-- 
2.43.0


From ff8a4880ed9771c9129324abd555b70b0aa354f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 22/90] fix: initialise the whole ld script parser state

static_link and new_undef_sym were read uninitialised.
---
 src/elflinker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elflinker.c b/src/elflinker.c
index ad9dfdc..edeb527 100644
--- a/src/elflinker.c
+++ b/src/elflinker.c
@@ -200,7 +200,7 @@ static int find_library(CJITState *cjit, const char *path) {
 	}
 	fclose(fd);
 	if(is_ldscript) {
-		LDState s1;
+		LDState s1 = {0};
 		int rr;
 		s1.libs = cjit->reallibs;
 		s1.libpaths = cjit->libpaths;
-- 
2.43.0


From 708923430848ee971117744ac4516f7cd97bb424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 23/90] fix: close the ld script once and return a defined
 result

The descriptor was closed a second time after the loop, and a script without
INPUT or GROUP returned an uninitialised value.
---
 src/elflinker.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/elflinker.c b/src/elflinker.c
index edeb527..257ae8b 100644
--- a/src/elflinker.c
+++ b/src/elflinker.c
@@ -476,7 +476,7 @@ static int ld_add_file_list(LDState *s1, const char *cmd, int as_needed) {
 static int resolve_ldscript(LDState *s1, char *path) {
     char cmd[64];
     char filename[1024];
-    int t, ret;
+    int t, ret = -1;
 	int fd = open(path, O_RDONLY | O_BINARY);
 	if(fd<0) {
 		fail(path);
@@ -497,10 +497,8 @@ static int resolve_ldscript(LDState *s1, char *path) {
         if (!strcmp(cmd, "INPUT") ||
             !strcmp(cmd, "GROUP")) {
             ret = ld_add_file_list(s1, cmd, 0);
-            if (ret) {
-				close(fd);
+            if (ret)
 				break;
-			}
         } else if (!strcmp(cmd, "OUTPUT_FORMAT") ||
                    !strcmp(cmd, "TARGET")) {
             /* ignore some commands */
@@ -508,7 +506,7 @@ static int resolve_ldscript(LDState *s1, char *path) {
             if (t != '(') {
 					_err("%s: ( expected while parsing %s",
 						 __func__,path);
-					close(fd);
+					ret = -1;
 					break;
 			}
             for(;;) {
-- 
2.43.0


From ef9c04352903e3521fb245386f7d55325fc06ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 24/90] fix: do not add a library that an ld script names but
 no path has

The last path tried, or uninitialised memory without any path, was added.
---
 src/elflinker.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/elflinker.c b/src/elflinker.c
index 257ae8b..4e43a7a 100644
--- a/src/elflinker.c
+++ b/src/elflinker.c
@@ -347,6 +347,7 @@ static int ld_add_file(LDState *s1, const char filename[]) {
 	char tryfile[PATH_MAX];
 	int libpaths_num;
 	char *lpath;
+	bool found = false;
     struct stat statbuf;
 	if(cwk_path_is_absolute(filename)) {
 		if (lstat(filename, &statbuf) == -1) {
@@ -374,7 +375,10 @@ static int ld_add_file(LDState *s1, const char filename[]) {
 			lpath = XArray_GetData(s1->libpaths,ii);
 			cwk_path_join(lpath,filename,tryfile,PATH_MAX);
 			if (lstat(tryfile, &statbuf) == -1) continue;
-			if (S_ISREG(statbuf.st_mode)) break;
+			if (S_ISREG(statbuf.st_mode)) {
+				found = true;
+				break;
+			}
 			if (S_ISLNK(statbuf.st_mode)) {
 				int tlen = strlen(tryfile)+64;
 				char *tpath = malloc(tlen); // ALLOC tpath
@@ -387,11 +391,16 @@ static int ld_add_file(LDState *s1, const char filename[]) {
 				tpath[len] = 0x0;
 				cwk_path_join(lpath,tpath,tryfile,PATH_MAX);
 				free(tpath);
+				found = true;
 				break;
 			}
 			// check ELF BOM in file
 			_err("Library file not recognized: %s",tryfile);
 		}
+		if(!found) {
+			_err("Library file not found: %s",filename);
+			return 0;
+		}
 	}
 	XArray_AddData(s1->libs, tryfile, strlen(tryfile));
 	return 1;
-- 
2.43.0


From 7d51cfa3efdb54b74253f07fee28e244e0324b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 25/90] fix: bound the temporary file name of cjit-ar

---
 src/cjit-ar.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index bd75a0d..6bc638b 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -188,7 +188,11 @@ finish:
     }
     created_file = argv[i_lib];
 
-    sprintf(tfile, "%s.tmp", argv[i_lib]);
+    if (snprintf(tfile, sizeof(tfile), "%s.tmp", argv[i_lib]) >= (int)sizeof(tfile))
+    {
+        fprintf(stderr, "cjit-ar: file name too long %s\n", argv[i_lib]);
+        goto the_end;
+    }
     if ((fo = fopen(tfile, "wb+")) == NULL)
     {
         fprintf(stderr, "cjit-ar: can't create temporary file %s\n", tfile);
-- 
2.43.0


From 771e7d53798dee57d2b342111817217a68d130bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 26/90] fix: cjit-ar rejects negative sizes and truncated
 members

A negative size overflowed the buffer; missing content was replaced by
uninitialised memory.
---
 src/cjit-ar.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 6bc638b..ed1c8dd 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -151,8 +151,15 @@ no_ar:
 	    *e = '\0';
 	    arhdr.ar_size[sizeof arhdr.ar_size-1] = 0;
 	    fsize = atoi(arhdr.ar_size);
+	    if (fsize < 0)
+		goto no_ar;
 	    buf = tcc_malloc(fsize + 1);
-	    fread(buf, fsize, 1, fh);
+	    if (fread(buf, 1, fsize, fh) != fsize)
+	    {
+		fprintf(stderr, "cjit-ar: truncated archive %s\n", argv[i_lib]);
+		tcc_free(buf);
+		goto finish;
+	    }
 	    if (strcmp(arhdr.ar_name,"/") && strcmp(arhdr.ar_name,"/SYM64/")) {
 		if (e > p && e[-1] == '/')
 		    e[-1] = '\0';
-- 
2.43.0


From 1b8dd8585875f26b1bd1e294373d5ea0024852df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 27/90] fix: cjit-ar extracts only into the current directory

A member name with a slash was opened as it was; write errors went unseen
and the name's terminator could land in the next header field.
---
 src/cjit-ar.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index ed1c8dd..8bf7006 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -146,7 +146,7 @@ no_ar:
 	    if (memcmp(arhdr.ar_fmag, ARFMAG, 2))
 		goto no_ar;
 	    p = arhdr.ar_name;
-	    for (e = p + sizeof arhdr.ar_name; e > p && e[-1] == ' ';)
+	    for (e = p + sizeof arhdr.ar_name - 1; e > p && e[-1] == ' ';)
 		e--;
 	    *e = '\0';
 	    arhdr.ar_size[sizeof arhdr.ar_size-1] = 0;
@@ -166,6 +166,13 @@ no_ar:
 		/* tv not implemented */
 	        if (table || verbose)
 		    printf("%s%s\n", extract ? "x - " : "", arhdr.ar_name);
+		if (extract && (strchr(arhdr.ar_name, '/') || strchr(arhdr.ar_name, '\\')))
+		{
+		    fprintf(stderr, "cjit-ar: refusing member with a path %s\n",
+			arhdr.ar_name);
+		    tcc_free(buf);
+		    goto finish;
+		}
 		if (extract) {
 		    if ((fo = fopen(arhdr.ar_name, "wb")) == NULL)
 		    {
@@ -174,8 +181,14 @@ no_ar:
 		        tcc_free(buf);
 			goto finish;
 		    }
-		    fwrite(buf, fsize, 1, fo);
-		    fclose(fo);
+		    i = fwrite(buf, 1, fsize, fo) == fsize;
+		    if (fclose(fo) != 0 || !i)
+		    {
+			fprintf(stderr, "cjit-ar: error writing file %s\n",
+				arhdr.ar_name);
+			tcc_free(buf);
+			goto finish;
+		    }
 		    /* ignore date/uid/gid/mode */
 		}
 	    }
-- 
2.43.0


From 425ec224652fc4fdb11c3bfc9a23dc7b664a1891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 28/90] fix: close the @listfile after reading it

---
 lib/tinycc/libtcc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/tinycc/libtcc.c b/lib/tinycc/libtcc.c
index 5b6606e..4d9fb6e 100644
--- a/lib/tinycc/libtcc.c
+++ b/lib/tinycc/libtcc.c
@@ -1792,6 +1792,7 @@ static int args_parser_listfile(TCCState *s,
         return tcc_error_noabort("listfile '%s' not found", filename);
 
     p = tcc_load_text(fd);
+    close(fd);
     for (i = 0; i < *pargc; ++i)
         if (i == optind)
             args_parser_make_argv(p, &argc, &argv);
-- 
2.43.0


From a7127a0a477868b39f01619d7d909cbd4f860900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 29/90] fix: close the output descriptor when fdopen fails

---
 lib/tinycc/tccelf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index da96e3e..0004650 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -2671,8 +2671,11 @@ static int tcc_write_elf_file(TCCState *s1, const char *filename, int phnum,
         mode = 0777;
     unlink(filename);
     fd = open(filename, O_WRONLY | O_CREAT | O_TRUNC | O_BINARY, mode);
-    if (fd < 0 || (f = fdopen(fd, "wb")) == NULL)
+    if (fd < 0 || (f = fdopen(fd, "wb")) == NULL) {
+        if (fd >= 0)
+            close(fd);
         return tcc_error_noabort("could not write '%s: %s'", filename, strerror(errno));
+    }
     if (s1->verbose)
         printf("<- %s\n", filename);
 #ifdef TCC_TARGET_COFF
-- 
2.43.0


From d3f7649ff4c785e07a155d23191fe285b2ad9ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 30/90] fix: report output files that could not be written
 completely

On a full disk a truncated executable was left behind and the link
succeeded.
---
 lib/tinycc/tccelf.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 0004650..505b264 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -2661,7 +2661,7 @@ static int tcc_output_binary(TCCState *s1, FILE *f,
 static int tcc_write_elf_file(TCCState *s1, const char *filename, int phnum,
                               ElfW(Phdr) *phdr, int file_offset, int *sec_order)
 {
-    int fd, mode, file_type, ret;
+    int i, fd, mode, file_type, ret;
     FILE *f;
 
     file_type = s1->output_type;
@@ -2687,7 +2687,9 @@ static int tcc_write_elf_file(TCCState *s1, const char *filename, int phnum,
         ret = tcc_output_elf(s1, f, phnum, phdr, file_offset, sec_order);
     else
         ret = tcc_output_binary(s1, f, sec_order);
-    fclose(f);
+    i = ferror(f);
+    if (fclose(f) != 0 || i)
+        return tcc_error_noabort("could not write '%s'", filename);
 
     return ret;
 }
-- 
2.43.0


From eb80f2d6904f8093dfbd9479899fc32e4f9b9a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 31/90] fix: cjit-ar reports archives that could not be written
 completely

---
 src/cjit-ar.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 8bf7006..6c3f918 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -356,8 +356,13 @@ the_end:
         tcc_free(anames);
     if (afpos)
         tcc_free(afpos);
-    if (fh)
-        fclose(fh);
+    if (fh) {
+        i = ferror(fh);
+        if (fclose(fh) != 0 || i) {
+            fprintf(stderr, "cjit-ar: error writing file %s\n", argv[i_lib]);
+            ret = 2;
+        }
+    }
     if (created_file && ret != 0)
         remove(created_file);
     if (fo)
-- 
2.43.0


From 08fb5e7d502021a5c6c1492991faa56abfd3f165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 32/90] fix: write_to_file reports a failed close

---
 src/file.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index f97475d..ac4b639 100644
--- a/src/file.c
+++ b/src/file.c
@@ -167,8 +167,7 @@ bool write_to_file(const char *path, const char *filename, const char *buf, unsi
 		return false;
 	}
 	written = fwrite(buf,1,len,fd);
-	fclose(fd);
-	if(written != len) {
+	if(fclose(fd)!=0 || written != len) {
 		fail(fullpath);
 		return false;
 	}
-- 
2.43.0


From b52562e2637fae362507f46b429183e39d595b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 33/90] fix: cjit-ar does not use the symbol table of the
 previous object

For an object without symbols the pointers still referred to the freed
content of the object before it; a rejected object was not freed.
---
 src/cjit-ar.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 6c3f918..847c8a2 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -249,9 +249,12 @@ finish:
         if (ehdr->e_ident[4] != ELFCLASSW)
         {
             fprintf(stderr, "cjit-ar: Unsupported Elf Class: %s\n", argv[i_obj]);
+            tcc_free(buf);
             goto the_end;
         }
 
+        symtab = strtab = NULL;
+        symtabsize = 0;
         shdr = (ElfW(Shdr) *) (buf + ehdr->e_shoff + ehdr->e_shstrndx * ehdr->e_shentsize);
         shstr = (char *)(buf + shdr->sh_offset);
         for (i = 0; i < ehdr->e_shnum; i++)
@@ -274,7 +277,7 @@ finish:
             }
         }
 
-        if (symtab && symtabsize)
+        if (symtab && symtabsize && strtab)
         {
             int nsym = symtabsize / sizeof(ElfW(Sym));
             //printf("symtab: info size shndx name\n");
-- 
2.43.0


From 977dfac057b708486e360c86fcffd6a059333c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:47 +0000
Subject: [PATCH 34/90] fix: a source file that is not read completely is an
 error

---
 src/cjit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cjit.c b/src/cjit.c
index f2ade6d..05d0ff6 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -446,7 +446,7 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 	}
 	strcpy(contents,spath);
 	free(spath);
-	if(0== fread(contents+spath_len, 1, length, file)) {
+	if(fread(contents+spath_len, 1, length, file) != length) {
 		fail(path);
 		free(contents);
 		fclose(file);
-- 
2.43.0


From 8ce4ca1db94e8fdccb11b1959770df116082f6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:47 +0000
Subject: [PATCH 35/90] fix: the status report fails when the compiler set-up
 fails

---
 src/main.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 3e9fc64..6535a4c 100644
--- a/src/main.c
+++ b/src/main.c
@@ -304,8 +304,7 @@ int main(int argc, char **argv) {
   if(opt.ind >= argc) {
 	  // no files on commandline
 	  if(CJIT->print_status) {
-		  cjit_status(CJIT);
-		  res = 0;
+		  res = cjit_status(CJIT)? 0: 1;
 		  goto endgame;
 	  }
 
-- 
2.43.0


From 1b2e37c5df78ef4e3906d1d114f4c44915e2ac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:47 +0000
Subject: [PATCH 36/90] fix: a library that cannot be added fails the run

---
 src/cjit.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 05d0ff6..532040f 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -555,8 +555,9 @@ int cjit_link(CJITState *cjit) {
 	int found = resolve_libs(cjit);
 	for(int i=0;i<found;i++) {
 		char *f = XArray_GetData(cjit->reallibs,i);
-		if(f) {
-			tcc_add_file(tcc(cjit), f);
+		if(f && tcc_add_file(tcc(cjit), f)<0) {
+			_err("%s: error: %s",__func__, f);
+			return -1;
 		}
 	}
 	debug(" -o %s",cjit->output_filename);
@@ -579,7 +580,10 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 		char *f = XArray_GetData(cjit->reallibs,i);
 		if(f) {
 			debug(" +file: %s",f);
-			tcc_add_file(tcc(cjit), f);
+			if(tcc_add_file(tcc(cjit), f)<0) {
+				_err("%s: error: %s",__func__, f);
+				return -1;
+			}
 		}
 	}
 	int res = 1;
-- 
2.43.0


From 5457a846796c51a47eddca58f87cf803e5945916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:02 +0000
Subject: [PATCH 37/90] fix: -C hands the front-end state to
 cjit_set_tcc_options

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 6535a4c..7a74d17 100644
--- a/src/main.c
+++ b/src/main.c
@@ -207,7 +207,7 @@ int main(int argc, char **argv) {
 		  cjit_add_library(CJIT, opt.arg);
 	  } else if (c == 'C') { // cflags compiler options
 		  if(CJIT->verbose)_err("arg cflags: %s",opt.arg);
-		  cjit_set_tcc_options(CJIT->TCC, opt.arg);
+		  cjit_set_tcc_options(CJIT, opt.arg);
 	  } else if (c == 'I') { // include paths in cflags
 		  if(CJIT->verbose)_err("arg inc: %s",opt.arg);
 		  cjit_add_include_path(CJIT, opt.arg);
-- 
2.43.0


From 2b6a9c86754abafc82b2c4bbdb40ca6f2715af73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 38/90] fix: cjit-ar checks that an object file was read

---
 src/cjit-ar.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 847c8a2..dfa6fa8 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -241,8 +241,13 @@ finish:
         fsize = ftell(fi);
         fseek(fi, 0, SEEK_SET);
         buf = tcc_malloc(fsize + 1);
-        fread(buf, fsize, 1, fi);
+        i = fsize >= (int)sizeof(*ehdr) && fread(buf, fsize, 1, fi) == 1;
         fclose(fi);
+        if (!i) {
+            fprintf(stderr, "cjit-ar: can't read object file %s \n", argv[i_obj]);
+            tcc_free(buf);
+            goto the_end;
+        }
 
         // elf header
         ehdr = (ElfW(Ehdr) *)buf;
-- 
2.43.0


From 9dc5fc167f3709d71d523b142bf19cfeee120f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 39/90] fix: cjit-ar reports a scratch file that could not be
 written or read back

---
 src/cjit-ar.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index dfa6fa8..2c058d1 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -329,6 +329,10 @@ finish:
         i_obj++;
         fpos += (fsize + sizeof(arhdro));
     }
+    if (fflush(fo) != 0 || ferror(fo)) {
+        fprintf(stderr, "cjit-ar: error writing temporary file %s\n", tfile);
+        goto the_end;
+    }
     hofs = 8 + sizeof(arhdr) + strpos + (funccnt+1) * sizeof(int);
     fpos = 0;
     if ((hofs & 1)) // align
@@ -355,9 +359,13 @@ finish:
     fsize = ftell(fo);
     fseek(fo, 0, SEEK_SET);
     buf = tcc_malloc(fsize + 1);
-    fread(buf, fsize, 1, fo);
+    i = fread(buf, fsize, 1, fo) == 1;
     fwrite(buf, fsize, 1, fh);
     tcc_free(buf);
+    if (!i) {
+        fprintf(stderr, "cjit-ar: can't read temporary file %s\n", tfile);
+        goto the_end;
+    }
     ret = 0;
 the_end:
     if (anames)
-- 
2.43.0


From 5388d2cc3c36753de3a74ec9a691f71ded4f418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 40/90] fix: cjit-ar keeps members that export no function

---
 src/cjit-ar.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 2c058d1..ca27ee3 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -334,13 +334,14 @@ finish:
         goto the_end;
     }
     hofs = 8 + sizeof(arhdr) + strpos + (funccnt+1) * sizeof(int);
+    i_obj = fpos; // size of all members
     fpos = 0;
     if ((hofs & 1)) // align
         hofs++, fpos = 1;
     // write header
     fwrite(ARMAG, 8, 1, fh);
     // create an empty archive
-    if (!funccnt) {
+    if (!i_obj) {
         ret = 0;
         goto the_end;
     }
-- 
2.43.0


From 26776ead4658a9b3300ca481839da47341823e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 41/90] fix: all the files before -- are source files

---
 src/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 7a74d17..0ac411a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -272,7 +272,9 @@ int main(int argc, char **argv) {
 	  else if (c == '?') _err("unknown opt: -%c\n", opt.opt? opt.opt : ':');
 	  else if (c == ':') _err("missing arg: -%c\n", opt.opt? opt.opt : ':');
 	  else if (c == '-') { // -- separator
-		  arg_separator = opt.ind+1; break;
+		  // files on the left were moved after the separator
+		  arg_separator = (opt.i > opt.ind)? opt.i : opt.ind+1;
+		  break;
 	  }
   }
   if(!CJIT->quiet)
-- 
2.43.0


From 02d3f2aa57216ba5089f82cbdbae1195af62618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 42/90] fix: pass the application arguments verbatim

---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index 0ac411a..efb5c09 100644
--- a/src/main.c
+++ b/src/main.c
@@ -415,6 +415,7 @@ char** remove_args(int* argc, char** argv,
     int new_argc = *argc;
     // Second pass: process removal patterns
     for (int i = 0; i < *argc; i++) {
+        if (strcmp(argv[i], "--") == 0) break; // app arguments follow
         if (!keep[i]) continue;  // Already marked for removal
         for (int j = 0; j < remove_count; j++) {
             const char* arg = argv[i];
-- 
2.43.0


From 697a52a7f65a91607225558d4c26e091072a9d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:00 +0000
Subject: [PATCH 43/90] fix: ignored flags do not swallow the next argument

---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index efb5c09..7621425 100644
--- a/src/main.c
+++ b/src/main.c
@@ -105,9 +105,13 @@ const char *ignored_args[] = {
 	"-shared",
 	"-O",
 	"-O:",
+	"-f",
 	"-f:",
+	"-W",
 	"-W:",
+	"-M",
 	"-M:",
+	"-g",
 	"-g:"
 };
 
-- 
2.43.0


From ff2ab1264f16c939619f361ad56f47f937727424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:14 +0000
Subject: [PATCH 44/90] fix: --verb has its own code, -e did not set the entry

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 7621425..c86db41 100644
--- a/src/main.c
+++ b/src/main.c
@@ -156,7 +156,7 @@ int main(int argc, char **argv) {
   // they are overridden by explicit command-line options
   static ko_longopt_t longopts[] = {
 	  { "help", ko_no_argument, 100 },
-	  { "verb", ko_no_argument, 101 },
+	  { "verb", ko_no_argument, 201 },
 #if defined(SELFHOST)
 	  { "src",  ko_no_argument, 311 },
 #endif
@@ -178,7 +178,7 @@ int main(int argc, char **argv) {
 		  _err(cli_help,VERSION);
 		  cjit_free(CJIT);
 		  exit(0); // print and exit
-	  } else if (c==101 ) { // verb
+	  } else if (c==201 ) { // verb
 		  CJIT->quiet = false;
 		  CJIT->verbose = true;
 	  } else if (c == 'D') { // define
-- 
2.43.0


From 824294d9710e7f586506125c305de5023bc335f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:41 +0000
Subject: [PATCH 45/90] fix: -c never executes the code read from stdin

---
 src/main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.c b/src/main.c
index c86db41..3e9019f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -389,6 +389,8 @@ int main(int argc, char **argv) {
 		       CJIT->output_filename);
 		  res = 1;
 	  } else res = 0;
+  } else if(CJIT->tcc_output==OBJ) {
+	  _err("Compiling to object files needs a file argument or -o");
   } else {
 	  // number of args at the left hand of arg separator, or all
 	  // of them
-- 
2.43.0


From fff74efc48753737f38c5ad5f17931edbb8eb92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 46/90] fix: forget a failed #if expression when its
 compilation ends

An error inside an #if expression left pp_expr set. The next diagnostic
outside a compilation (a missing file, an unresolved symbol) then tried to
print the rest of that expression from a macro stack that no longer exists
and crashed.
---
 lib/tinycc/tccpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 6f2bc17..e9e2887 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -3671,6 +3671,7 @@ ST_FUNC void preprocess_end(TCCState *s1)
     macro_ptr = NULL;
     while (file)
         tcc_close();
+    pp_expr = 0; /* an error may have interrupted expr_preprocess() */
     tccpp_delete(s1);
 }
 
-- 
2.43.0


From 65fe7078eadfa3272e3926cddf409ac831416f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:18 +0000
Subject: [PATCH 47/90] fix: do not run __bound_init while holding the runtime
 lock

With TCC_BOUNDS_PRINT_CALLS set, __bound_init prints backtraces, which take
the same lock: -b -run hung before main.
---
 lib/tinycc/tccrun.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccrun.c b/lib/tinycc/tccrun.c
index b0cb4db..d08f664 100644
--- a/lib/tinycc/tccrun.c
+++ b/lib/tinycc/tccrun.c
@@ -511,9 +511,11 @@ static void bt_link(TCCState *s1)
             ((void(*)(void*,int))p)(rc->bounds_start, 1);
     }
 #endif
+    rt_wait_sem();
     rc->next = g_rc, g_rc = rc, s1->rc = rc;
     if (0 == signal_set)
         set_exception_handler(), signal_set = 1;
+    rt_post_sem();
 #endif
 }
 
@@ -521,8 +523,8 @@ static void st_link(TCCState *s1)
 {
     rt_wait_sem();
     s1->next = g_s1, g_s1 = s1;
-    bt_link(s1);
     rt_post_sem();
+    bt_link(s1); /* runs __bound_init, which may print a backtrace */
 }
 
 /* remove 'el' from 'list' */
-- 
2.43.0


From a726be18521f099713408594d1769c2f253b3760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:18 +0000
Subject: [PATCH 48/90] fix: bcheck: do not take the bounds lock twice when
 printing calls

Five call traces are printed while the lock is held, and printing took it
again: with TCC_BOUNDS_PRINT_CALLS a threaded program hung.
---
 lib/tinycc/lib/bcheck.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/tinycc/lib/bcheck.c b/lib/tinycc/lib/bcheck.c
index f609a22..8b9e79d 100644
--- a/lib/tinycc/lib/bcheck.c
+++ b/lib/tinycc/lib/bcheck.c
@@ -42,8 +42,10 @@
 
 #if BOUND_DEBUG
  #define dprintf(a...)         if (print_calls) { bounds_loc(a); }
+ #define dprintf_locked(a...)  if (print_calls) { bounds_log(a); }
 #else
  #define dprintf(a...)
+ #define dprintf_locked(a...)
 #endif
 
 #ifdef __attribute__
@@ -462,10 +464,14 @@ int tcc_backtrace(const char *fmt, ...);
             exit(255);              \
     } while (0)
 
+/* for use while the lock is held */
+#define bounds_log(fp, ...) \
+    tcc_backtrace("^bcheck.c^\001" __VA_ARGS__)
+
 #define bounds_loc(fp, ...) \
     do {                            \
         WAIT_SEM (); \
-        tcc_backtrace("^bcheck.c^\001" __VA_ARGS__); \
+        bounds_log(fp, __VA_ARGS__); \
         POST_SEM (); \
     } while (0)
 
@@ -702,7 +708,7 @@ void FASTCALL __bound_local_delete(void *p1)
                 else
                     alloca_list = cur->next;
                 tree = splay_delete ((size_t) cur->p, tree);
-                dprintf(stderr, "%s, %s(): remove alloca/vla %p\n",
+                dprintf_locked(stderr, "%s, %s(): remove alloca/vla %p\n",
                         __FILE__, __FUNCTION__, cur->p);
                 BOUND_FREE (cur);
                 cur = last ? last->next : alloca_list;
@@ -723,7 +729,7 @@ void FASTCALL __bound_local_delete(void *p1)
                     last->next = cur->next;
                 else
                     jmp_list = cur->next;
-                dprintf(stderr, "%s, %s(): remove setjmp %p\n",
+                dprintf_locked(stderr, "%s, %s(): remove setjmp %p\n",
                        __FILE__, __FUNCTION__, cur->penv);
                 BOUND_FREE (cur);
                 cur = last ? last->next : jmp_list;
@@ -865,7 +871,7 @@ static void __bound_long_jump(jmp_buf env, int val, int sig, const char *func)
 
                 while (cur->penv != e || cur->tid != tid) {
                     if (cur->tid == tid) {
-                        dprintf(stderr, "%s, %s(): remove setjmp %p\n",
+                        dprintf_locked(stderr, "%s, %s(): remove setjmp %p\n",
                                 __FILE__, func, cur->penv);
                         if (last)
                             last->next = cur->next;
@@ -895,7 +901,7 @@ static void __bound_long_jump(jmp_buf env, int val, int sig, const char *func)
                     cur = alloca_list;
                     while (cur) {
                          if ((size_t) cur->p == t->start) {
-                             dprintf(stderr, "%s, %s(): remove alloca/vla %p\n",
+                             dprintf_locked(stderr, "%s, %s(): remove alloca/vla %p\n",
                                      __FILE__, func, cur->p);
                              if (last)
                                  last->next = cur->next;
@@ -907,7 +913,7 @@ static void __bound_long_jump(jmp_buf env, int val, int sig, const char *func)
                          last = cur;
                          cur = cur->next;
                     }
-                    dprintf(stderr, "%s, %s(): delete %p\n",
+                    dprintf_locked(stderr, "%s, %s(): delete %p\n",
                             __FILE__, func, (void *) t->start);
                     tree = splay_delete(t->start, tree);
                 }
@@ -1106,7 +1112,7 @@ add_bounds:
         tree = splay_insert(p[0], p[1], tree);
 #if BOUND_DEBUG
         if (print_calls) {
-            dprintf(stderr, "%s, %s(): static var %p 0x%lx\n",
+            dprintf_locked(stderr, "%s, %s(): static var %p 0x%lx\n",
                     __FILE__, __FUNCTION__,
                     (void *) p[0], (unsigned long) p[1]);
         }
@@ -1297,7 +1303,7 @@ void __bound_exit_dll(size_t *p)
 	    tree = splay_delete(p[0], tree);
 #if BOUND_DEBUG
             if (print_calls) {
-                dprintf(stderr, "%s, %s(): remove static var %p 0x%lx\n",
+                dprintf_locked(stderr, "%s, %s(): remove static var %p 0x%lx\n",
                         __FILE__, __FUNCTION__,
                         (void *) p[0], (unsigned long) p[1]);
             }
-- 
2.43.0


From 4abe42572d7b2c3df93b87a0a2320e08fbca62c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:08 +0000
Subject: [PATCH 49/90] fix: use the addend of GOTPCREL relocations instead of
 assuming -4

---
 lib/tinycc/x86_64-link.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/x86_64-link.c b/lib/tinycc/x86_64-link.c
index 42f753c..d0da850 100644
--- a/lib/tinycc/x86_64-link.c
+++ b/lib/tinycc/x86_64-link.c
@@ -288,7 +288,7 @@ ST_FUNC void relocate(TCCState *s1, ElfW_Rel *rel, int type, unsigned char *ptr,
         case R_X86_64_GOTPCRELX:
         case R_X86_64_REX_GOTPCRELX:
             add32le(ptr, s1->got->sh_addr - addr +
-                         get_sym_attr(s1, sym_index, 0)->got_offset - 4);
+                         get_sym_attr(s1, sym_index, 0)->got_offset + rel->r_addend);
             break;
         case R_X86_64_GOTPC32:
             add32le(ptr, s1->got->sh_addr - addr + rel->r_addend);
-- 
2.43.0


From f06a2a4a83988eb1a663b57e8e40717e594235af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 50/90] fix: count the addend exactly once in PLTOFF64 and
 GOT32/GOT64 relocations

---
 lib/tinycc/x86_64-link.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/tinycc/x86_64-link.c b/lib/tinycc/x86_64-link.c
index d0da850..090490a 100644
--- a/lib/tinycc/x86_64-link.c
+++ b/lib/tinycc/x86_64-link.c
@@ -261,7 +261,7 @@ ST_FUNC void relocate(TCCState *s1, ElfW_Rel *rel, int type, unsigned char *ptr,
 	    break;
 
         case R_X86_64_PLTOFF64:
-            add64le(ptr, val - s1->got->sh_addr + rel->r_addend);
+            add64le(ptr, val - s1->got->sh_addr);
             break;
 
         case R_X86_64_PC64:
@@ -301,11 +301,11 @@ ST_FUNC void relocate(TCCState *s1, ElfW_Rel *rel, int type, unsigned char *ptr,
             break;
         case R_X86_64_GOT32:
             /* we load the got offset */
-            add32le(ptr, get_sym_attr(s1, sym_index, 0)->got_offset);
+            add32le(ptr, get_sym_attr(s1, sym_index, 0)->got_offset + rel->r_addend);
             break;
         case R_X86_64_GOT64:
             /* we load the got offset */
-            add64le(ptr, get_sym_attr(s1, sym_index, 0)->got_offset);
+            add64le(ptr, get_sym_attr(s1, sym_index, 0)->got_offset + rel->r_addend);
             break;
         case R_X86_64_GOTOFF64:
             add64le(ptr, val - s1->got->sh_addr);
-- 
2.43.0


From 93fcd6488b270ceb5e7df86952700e41a69daf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 51/90] fix: x86_64: save the x87 register, not its class,
 before a conversion to long double

---
 lib/tinycc/x86_64-gen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index 4f46efc..c4aea15 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -2121,7 +2121,7 @@ void gen_cvt_ftof(int t)
             o(0x5a0f); /* cvtps2pd */
             o(0xc0 + REG_VALUE(vtop->r)*9);
         } else if (tbt == VT_LDOUBLE) {
-            save_reg(RC_ST0);
+            save_reg(TREG_ST0);
             /* movss %xmm0,-0x10(%rsp) */
             o(0x110ff3);
             o(0x44 + REG_VALUE(vtop->r)*8);
@@ -2137,7 +2137,7 @@ void gen_cvt_ftof(int t)
             o(0x5a0f66); /* cvtpd2ps */
             o(0xc0 + REG_VALUE(vtop->r)*9);
         } else if (tbt == VT_LDOUBLE) {
-            save_reg(RC_ST0);
+            save_reg(TREG_ST0);
             /* movsd %xmm0,-0x10(%rsp) */
             o(0x110ff2);
             o(0x44 + REG_VALUE(vtop->r)*8);
-- 
2.43.0


From f15c6dffd5297e5b634a490eeaa287c8469a5d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 52/90] fix: x86_64: convert long double to integer without
 rounding to double first

---
 lib/tinycc/x86_64-gen.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index c4aea15..9a5f478 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -2173,17 +2173,27 @@ void gen_cvt_ftoi(int t)
     int ft, bt, size, r;
     ft = vtop->type.t;
     bt = ft & VT_BTYPE;
-    if (bt == VT_LDOUBLE) {
-        gen_cvt_ftof(VT_DOUBLE);
-        bt = VT_DOUBLE;
-    }
-
-    gv(RC_FLOAT);
     if (t != VT_INT)
         size = 8;
     else
         size = 4;
 
+    if (bt == VT_LDOUBLE) {
+        /* not through double, which would round the value first */
+        gv(RC_ST0);
+        r = get_reg(RC_INT);
+        o(0xf8247cd9); /* fnstcw -0x8(%rsp) */
+        o(0x66); o(0xfa2444c7); g(0x7f); g(0x0f); /* movw $0xf7f,-0x6(%rsp) */
+        o(0xfa246cd9); /* fldcw -0x6(%rsp) */
+        o(0xf0247cdf); /* fistpll -0x10(%rsp) */
+        o(0xf8246cd9); /* fldcw -0x8(%rsp) */
+        orex(size == 8, 0, r, 0x8b); /* mov -0x10(%rsp), r */
+        o(0xf02444 | REG_VALUE(r) << 3);
+        vtop->r = r;
+        return;
+    }
+
+    gv(RC_FLOAT);
     r = get_reg(RC_INT);
     if (bt == VT_FLOAT) {
         o(0xf3);
-- 
2.43.0


From 06ac9e9b5b47fdf6a7c2c90affbc5434a499d204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 53/90] fix: x86_64: read global floating-point operands
 through the got

---
 lib/tinycc/x86_64-gen.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index 9a5f478..f709732 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -1839,6 +1839,15 @@ void vpush_const(int t, int v)
     vtop->r |= VT_LVAL;
 }
 
+#ifndef TCC_TARGET_PE
+/* is 'sv' in memory at an address that has to be loaded from the got */
+static int needs_got(SValue *sv)
+{
+    return (sv->r & (VT_VALMASK | VT_LVAL | VT_SYM)) == (VT_CONST | VT_LVAL | VT_SYM)
+        && !(sv->sym->type.t & VT_STATIC);
+}
+#endif
+
 /* generate a floating point operation 'v = t1 op t2' instruction. The
    two operands are guaranteed to have the same floating point type */
 /* XXX: need to use ST1 too */
@@ -1874,6 +1883,17 @@ void gen_opf(int op)
     if ((vtop[0].r & (VT_VALMASK | VT_LVAL)) == VT_CONST)
         gv(float_type);
 
+#ifndef TCC_TARGET_PE
+    /* only load() reads from an address that comes from the got */
+    if (bt != VT_LDOUBLE && needs_got(&vtop[-1])) {
+        vswap();
+        gv(float_type);
+        vswap();
+    }
+    if (bt != VT_LDOUBLE && needs_got(&vtop[0]))
+        gv(float_type);
+#endif
+
     /* must put at least one value in the floating point register */
     if ((vtop[-1].r & VT_LVAL) &&
         (vtop[0].r & VT_LVAL)) {
-- 
2.43.0


From 5f1d8984e633f287f8f1db29c400a52a6a782d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 54/90] fix: x86_64: store a byte from rsi or rdi with the
 prefix those registers need

---
 lib/tinycc/x86_64-gen.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index f709732..e33c95d 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -611,9 +611,12 @@ void store(int r, SValue *v)
         if (bt == VT_SHORT)
             o(0x66);
         o(pic);
-        if (bt == VT_BYTE || bt == VT_BOOL)
+        if (bt == VT_BYTE || bt == VT_BOOL) {
+            /* without a prefix this would be %dh or %bh, not %sil or %dil */
+            if (!pic && (r == TREG_RSI || r == TREG_RDI))
+                o(0x40);
             orex(0, 0, r, 0x88);
-        else if (is64_type(bt))
+        } else if (is64_type(bt))
             op64 = 0x89;
         else
             orex(0, 0, r, 0x89);
-- 
2.43.0


From e6a578cede385b4d46cd4b2bfdd2a0bd0da0289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:37 +0000
Subject: [PATCH 55/90] fix: unions with a long double member are passed in
 memory

---
 lib/tinycc/x86_64-gen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index e33c95d..ad8392a 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -1087,10 +1087,10 @@ static X86_64_Mode classify_x86_64_merge(X86_64_Mode a, X86_64_Mode b)
         return a;
     else if ((a == x86_64_mode_memory) || (b == x86_64_mode_memory))
         return x86_64_mode_memory;
-    else if ((a == x86_64_mode_integer) || (b == x86_64_mode_integer))
-        return x86_64_mode_integer;
     else if ((a == x86_64_mode_x87) || (b == x86_64_mode_x87))
         return x86_64_mode_memory;
+    else if ((a == x86_64_mode_integer) || (b == x86_64_mode_integer))
+        return x86_64_mode_integer;
     else
         return x86_64_mode_sse;
 }
-- 
2.43.0


From 60f60ecd6dca8bd48f5c7a52c3b9e61ce2df3441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 56/90] fix: classify array members of structs by their
 elements

---
 lib/tinycc/x86_64-gen.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index ad8392a..dcda503 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -1100,6 +1100,11 @@ static X86_64_Mode classify_x86_64_inner(CType *ty)
     X86_64_Mode mode;
     Sym *f;
     
+    /* the members of a struct that are arrays are not pointers */
+    if (ty->t & VT_ARRAY)
+        return ty->ref->c > 0 ? classify_x86_64_inner(&ty->ref->type)
+            : x86_64_mode_none;
+
     switch (ty->t & VT_BTYPE) {
     case VT_VOID: return x86_64_mode_none;
     
-- 
2.43.0


From 829813c711a7a2826ef7253694c1c98563a2e99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:31 +0000
Subject: [PATCH 57/90] fix: structs with unaligned members are passed in
 memory

---
 lib/tinycc/x86_64-gen.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index dcda503..aa707e3 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -1095,16 +1095,24 @@ static X86_64_Mode classify_x86_64_merge(X86_64_Mode a, X86_64_Mode b)
         return x86_64_mode_sse;
 }
 
-static X86_64_Mode classify_x86_64_inner(CType *ty)
+static X86_64_Mode classify_x86_64_inner(CType *ty, int offset)
 {
     X86_64_Mode mode;
     Sym *f;
+    int align;
     
     /* the members of a struct that are arrays are not pointers */
     if (ty->t & VT_ARRAY)
-        return ty->ref->c > 0 ? classify_x86_64_inner(&ty->ref->type)
+        return ty->ref->c > 0 ? classify_x86_64_inner(&ty->ref->type, offset)
             : x86_64_mode_none;
 
+    /* a struct with unaligned members is passed in memory */
+    if (offset && !(ty->t & VT_BITFIELD) && (ty->t & VT_BTYPE) != VT_STRUCT) {
+        type_size(ty, &align);
+        if (offset & (align - 1))
+            return x86_64_mode_memory;
+    }
+
     switch (ty->t & VT_BTYPE) {
     case VT_VOID: return x86_64_mode_none;
     
@@ -1127,7 +1135,7 @@ static X86_64_Mode classify_x86_64_inner(CType *ty)
 
         mode = x86_64_mode_none;
         for (f = f->next; f; f = f->next)
-            mode = classify_x86_64_merge(mode, classify_x86_64_inner(&f->type));
+            mode = classify_x86_64_merge(mode, classify_x86_64_inner(&f->type, offset + f->c));
         
         return mode;
     }
@@ -1155,7 +1163,7 @@ static X86_64_Mode classify_x86_64_arg(CType *ty, CType *ret, int *psize, int *p
         if (size > 16) {
             mode = x86_64_mode_memory;
         } else {
-            mode = classify_x86_64_inner(ty);
+            mode = classify_x86_64_inner(ty, 0);
             switch (mode) {
             case x86_64_mode_integer:
                 if (size > 8) {
-- 
2.43.0


From e028c084662f41f8d844702dbe29485a14e17d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 58/90] fix: va_arg of a two-register floating-point struct
 leaves the last register to later arguments

---
 lib/tinycc/lib/va_list.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/tinycc/lib/va_list.c b/lib/tinycc/lib/va_list.c
index 1fb5512..4c94e6a 100644
--- a/lib/tinycc/lib/va_list.c
+++ b/lib/tinycc/lib/va_list.c
@@ -40,16 +40,14 @@ void *__va_arg(__builtin_va_list ap,
         goto use_overflow_area;
 
     case __va_float_reg:
-        if (ap->fp_offset < 128 + 48) {
+        if (ap->fp_offset + 2 * size <= 128 + 48) {
             ap->fp_offset += 16;
             if (size == 8)
                 return ap->reg_save_area + ap->fp_offset - 16;
-            if (ap->fp_offset < 128 + 48) {
-                memcpy(ap->reg_save_area + ap->fp_offset - 8,
-                       ap->reg_save_area + ap->fp_offset, 8);
-                ap->fp_offset += 16;
-                return ap->reg_save_area + ap->fp_offset - 32;
-            }
+            memcpy(ap->reg_save_area + ap->fp_offset - 8,
+                   ap->reg_save_area + ap->fp_offset, 8);
+            ap->fp_offset += 16;
+            return ap->reg_save_area + ap->fp_offset - 32;
         }
         goto use_overflow_area;
 
-- 
2.43.0


From 7e1da362db7165f9584b7f4309f8541c2f1343aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:35 +0000
Subject: [PATCH 59/90] fix: a weak reference must not weaken an earlier strong
 undefined reference

---
 lib/tinycc/tccelf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 505b264..8088300 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -716,6 +716,9 @@ ST_FUNC int set_elf_sym(Section *s, addr_t value, unsigned long size,
             }
         } else {
             esym->st_other = other;
+            /* a weak reference does not weaken an earlier strong one */
+            if (shndx == SHN_UNDEF && ELFW(ST_BIND)(esym->st_info) == STB_GLOBAL)
+                sym_bind = STB_GLOBAL;
         do_patch:
             esym->st_info = ELFW(ST_INFO)(sym_bind, sym_type);
             esym->st_shndx = shndx;
-- 
2.43.0


From b361baf873f52989398931b90b70c34f15957914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 60/90] fix: case constants were not converted to the promoted
 type of the switch value

---
 lib/tinycc/tccgen.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 57bc493..4fca99e 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -6691,6 +6691,21 @@ static void check_func_return(void)
 /* ------------------------------------------------------------------------- */
 /* switch/case */
 
+/* true if switch values of type t compare as unsigned after promotion */
+static int case_unsigned(int t)
+{
+    int bt = t & VT_BTYPE;
+    return (t & VT_UNSIGNED) && (bt == VT_INT || bt == VT_LLONG);
+}
+
+/* convert case constant to the promoted type t of the switch value */
+static int64_t case_value(int64_t v, int t)
+{
+    if ((t & VT_BTYPE) == VT_LLONG)
+        return v;
+    return case_unsigned(t) ? (int64_t)(uint32_t)v : (int64_t)(int32_t)v;
+}
+
 static int case_cmpi(const void *pa, const void *pb)
 {
     int64_t a = (*(struct case_t**) pa)->v1;
@@ -7154,12 +7169,12 @@ again:
 
         if (sw->nocode_wanted)
             goto skip_switch;
-        if (sw->sv.type.t & VT_UNSIGNED)
+        if (case_unsigned(sw->sv.type.t))
             qsort(sw->p, sw->n, sizeof(void*), case_cmpu);
         else
             qsort(sw->p, sw->n, sizeof(void*), case_cmpi);
         for (b = 1; b < sw->n; b++)
-            if (sw->sv.type.t & VT_UNSIGNED
+            if (case_unsigned(sw->sv.type.t)
                 ? (uint64_t)sw->p[b - 1]->v2 >= (uint64_t)sw->p[b]->v1
                 : sw->p[b - 1]->v2 >= sw->p[b]->v1)
                 tcc_error("duplicate case value");
@@ -7182,12 +7197,13 @@ again:
             expect("switch");
         cr = tcc_malloc(sizeof(struct case_t));
         dynarray_add(&cur_switch->p, &cur_switch->n, cr);
-        cr->v1 = cr->v2 = expr_const64();
+        t = cur_switch->sv.type.t;
+        cr->v1 = cr->v2 = case_value(expr_const64(), t);
         if (gnu_ext && tok == TOK_DOTS) {
             next();
-            cr->v2 = expr_const64();
-            if ((!(cur_switch->sv.type.t & VT_UNSIGNED) && cr->v2 < cr->v1)
-                || (cur_switch->sv.type.t & VT_UNSIGNED && (uint64_t)cr->v2 < (uint64_t)cr->v1))
+            cr->v2 = case_value(expr_const64(), t);
+            if ((!case_unsigned(t) && cr->v2 < cr->v1)
+                || (case_unsigned(t) && (uint64_t)cr->v2 < (uint64_t)cr->v1))
                 tcc_warning("empty case range");
         }
         /* case and default are unreachable from a switch under nocode_wanted */
-- 
2.43.0


From 91f200fa4322449299a6dfb439af4cd46866a1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 61/90] fix: goto out of nested scopes with variable-length
 arrays kept their stack space

---
 lib/tinycc/tccgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 4fca99e..474640b 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7222,7 +7222,7 @@ again:
         goto block_after_label;
 
     } else if (t == TOK_GOTO) {
-        vla_restore(cur_scope->vla.locorig);
+        vla_leave(NULL); /* a label restores what lives in its scope */
         if (tok == '*' && gnu_ext) {
             /* computed goto */
             next();
-- 
2.43.0


From 90b97c1134b6b7bec45d4e3a4723bb1ff2af451a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:04 +0000
Subject: [PATCH 62/90] fix: what follows a redundantly parenthesized
 declarator was derived from the wrong type

---
 lib/tinycc/tccgen.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 474640b..73dcfd1 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -5105,6 +5105,7 @@ check:
 static CType *type_decl(CType *type, AttributeDef *ad, int *v, int td)
 {
     CType *post, *ret;
+    Sym *base;
     int qualifiers, storage;
 
     /* recursive type, remove storage bits first, apply them later again */
@@ -5170,8 +5171,17 @@ static CType *type_decl(CType *type, AttributeDef *ad, int *v, int td)
 	  expect("identifier");
 	*v = 0;
     }
+    base = post->ref;
     post_type(post, ad, post != ret ? 0 : storage,
               td & ~(TYPE_DIRECT|TYPE_ABSTRACT));
+    if (ret == type) {
+	/* no pointer at this level: if these are redundant parentheses, what
+	   follows them is derived from the same type as the declarator
+	   inside them: 'int ((*p))[3]', 'int (a[3])[4]' */
+	ret = post;
+	while ((ret->t & VT_ARRAY) && ret->ref != base)
+	    ret = &ret->ref->type;
+    }
     parse_attribute(ad);
     type->t |= storage;
     return ret;
-- 
2.43.0


From 9b84c4245507797bbc0094b0a17e66898d59131c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:14 +0000
Subject: [PATCH 63/90] fix: unnamed bit-fields influenced the alignment of a
 union

---
 lib/tinycc/tccgen.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 73dcfd1..5f9b77a 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -4138,8 +4138,12 @@ static void struct_layout(CType *type, AttributeDef *ad)
             align = a;
 
         if (type->ref->type.t == VT_UNION) {
-	    if (pcc && bit_size >= 0)
+	    if (pcc && bit_size >= 0) {
 	        size = (bit_size + 7) >> 3;
+		/* unnamed bit-fields do not influence the alignment */
+		if (f->v & SYM_FIRST_ANOM)
+		    align = 1;
+	    }
 	    offset = 0;
 	    if (size > c)
 	        c = size;
-- 
2.43.0


From 6d1114c77f7df0ab44a9b61c577ce1aed26eff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:13 +0000
Subject: [PATCH 64/90] fix: tcc: keep the token flags across a computed
 __has_include

A macro as the operand of __has_include made parse_include() switch to
pp-tokens and leave parse_flags that way, so the rest of the #if
expression kept its numbers unconverted and was rejected.
---
 lib/tinycc/tccpp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index e9e2887..0da9742 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -1361,6 +1361,7 @@ static int parse_include(TCCState *s1, int do_next, int test)
     } else {
         /* computed #include : concatenate tokens until result is one of
            the two accepted forms.  Don't convert pp-tokens to tokens here. */
+        int saved_parse_flags = parse_flags;
 	parse_flags = PARSE_FLAG_PREPROCESS
                     | PARSE_FLAG_LINEFEED
                     | (parse_flags & PARSE_FLAG_ASM_FILE);
@@ -1379,6 +1380,8 @@ static int parse_include(TCCState *s1, int do_next, int test)
         c = p[0];
         /* remove '<>|""' */
         memmove(p, p + 1, i - 1), p[i - 1] = 0;
+        /* inside an #if expression more tokens follow */
+        parse_flags = saved_parse_flags;
     }
 
     if (!test)
-- 
2.43.0


From 289d2cf0ae4a757aa07d54445969fd1bfe712d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:13 +0000
Subject: [PATCH 65/90] fix: tcc assembler: strings work again after .file

The .file directive cleared PARSE_FLAG_TOK_STR and never set it back:
every later .string/.ascii/.section failed with 'string constant
expected'.
---
 lib/tinycc/tccasm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccasm.c b/lib/tinycc/tccasm.c
index e52872b..84ed40d 100644
--- a/lib/tinycc/tccasm.c
+++ b/lib/tinycc/tccasm.c
@@ -773,10 +773,12 @@ static void asm_parse_directive(TCCState *s1, int global)
     case TOK_ASMDIR_file:
         {
             const char *p;
+            int saved_parse_flags = parse_flags;
             parse_flags &= ~PARSE_FLAG_TOK_STR;
             next();
             if (tok == TOK_PPNUM)
                 next();
+            parse_flags = saved_parse_flags;
             if (tok == TOK_PPSTR && tokc.str.data[0] == '"') {
                 tokc.str.data[tokc.str.size - 2] = 0;
                 p = tokc.str.data + 1;
-- 
2.43.0


From 69075c5b343b54f70d92e0f10b73a75e77e8c6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:58 +0000
Subject: [PATCH 66/90] fix: tcc: a symbol defined twice in objects or archive
 members fails the link

---
 lib/tinycc/tccelf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 8088300..2daa8f9 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -3083,6 +3083,7 @@ ST_FUNC int tcc_load_object_file(TCCState *s1,
     char *strsec, *strtab;
     int stab_index, stabstr_index;
     int *old_to_new_syms;
+    int nb_errors = s1->nb_errors;
     char *sh_name, *name;
     SectionMergeInfo *sm_table, *sm;
     ElfW(Sym) *sym, *symtab;
@@ -3351,7 +3352,8 @@ invalid:
         }
     }
 
-    ret = 0;
+    /* symbols defined twice are reported above, without stopping */
+    ret = s1->nb_errors > nb_errors ? -1 : 0;
  the_end:
     tcc_free(symtab);
     tcc_free(strtab);
-- 
2.43.0


From 371a5a2005e280571587c72136083b24f34db1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:25 +0000
Subject: [PATCH 67/90] fix: tcc: errors in the files of a linker script are no
 longer dropped or made up

---
 lib/tinycc/tccelf.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 2daa8f9..0777355 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -3891,9 +3891,11 @@ static int ld_next(TCCState *s1, char *name, int name_size)
 static int ld_add_file(TCCState *s1, const char filename[])
 {
     if (filename[0] == '/') {
-        if (CONFIG_SYSROOT[0] == '\0'
-            && tcc_add_file_internal(s1, filename, AFF_TYPE_BIN) == 0)
-            return 0;
+        if (CONFIG_SYSROOT[0] == '\0') {
+            int ret = tcc_add_file_internal(s1, filename, AFF_TYPE_BIN);
+            if (ret != FILE_NOT_FOUND)
+                return ret;
+        }
         filename = tcc_basename(filename);
     }
     return tcc_add_dll(s1, filename, AFF_PRINT_ERROR);
@@ -3949,10 +3951,8 @@ static int ld_add_file_list(TCCState *s1, const char *cmd, int as_needed)
                 if (ret)
                     goto lib_parse_error;
                 if (group) {
-                    /* Add the filename *and* the libname to avoid future conversions */
+                    /* Add the filename, the -l form was converted to it above */
                     dynarray_add(&libs, &nblibs, tcc_strdup(filename));
-                    if (libname[0] != '\0')
-                        dynarray_add(&libs, &nblibs, tcc_strdup(libname));
                 }
             }
         }
@@ -3965,8 +3965,11 @@ static int ld_add_file_list(TCCState *s1, const char *cmd, int as_needed)
         while (s1->new_undef_sym) {
             int i;
             s1->new_undef_sym = 0;
-            for (i = 0; i < nblibs; i ++)
-                ld_add_file(s1, libs[i]);
+            for (i = 0; i < nblibs; i ++) {
+                ret = ld_add_file(s1, libs[i]);
+                if (ret)
+                    goto lib_parse_error;
+            }
         }
     }
 lib_parse_error:
-- 
2.43.0


From 03cb3098e34b92374fa06d6e8a895a84bed12ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:55 +0000
Subject: [PATCH 68/90] fix: tcc: a relocation error fails the link for every
 output format

---
 lib/tinycc/tccelf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 0777355..7327849 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -2960,6 +2960,10 @@ static int elf_output_file(TCCState *s1, const char *filename)
     if (dyninf.gnu_hash)
         update_gnu_hash(s1, dyninf.gnu_hash);
 
+    /* relocation errors */
+    if (s1->nb_errors != 0)
+        goto the_end;
+
     /* Create the ELF file with name 'filename' */
     ret = tcc_write_elf_file(s1, filename, dyninf.phnum, dyninf.phdr, file_offset, sec_order);
  the_end:
-- 
2.43.0


From 7ccb6f6838f8f4f802d15bd2527c168d9505e92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:15 +0000
Subject: [PATCH 69/90] fix: tcc: missing startup files and duplicate added
 symbols are returned as errors

---
 lib/tinycc/libtcc.c | 9 +++++++--
 src/cjit.c          | 5 ++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/tinycc/libtcc.c b/lib/tinycc/libtcc.c
index 4d9fb6e..1c08fc8 100644
--- a/lib/tinycc/libtcc.c
+++ b/lib/tinycc/libtcc.c
@@ -930,8 +930,12 @@ LIBTCCAPI int tcc_set_output_type(TCCState *s, int output_type)
 #else
     /* paths for crt objects */
     tcc_split_path(s, &s->crt_paths, &s->nb_crt_paths, CONFIG_TCC_CRTPREFIX);
-    if (output_type != TCC_OUTPUT_MEMORY && !s->nostdlib)
+    if (output_type != TCC_OUTPUT_MEMORY && !s->nostdlib) {
+        int nb_errors = s->nb_errors;
         tccelf_add_crtbegin(s);
+        if (s->nb_errors > nb_errors)
+            return -1;
+    }
 #endif
     return 0;
 }
@@ -1235,6 +1239,7 @@ ST_FUNC void tcc_add_pragma_libs(TCCState *s1)
 
 LIBTCCAPI int tcc_add_symbol(TCCState *s1, const char *name, const void *val)
 {
+    int nb_errors = s1->nb_errors;
 #ifdef TCC_TARGET_PE
     /* On x86_64 'val' might not be reachable with a 32bit offset.
        So it is handled here as if it were in a DLL. */
@@ -1248,7 +1253,7 @@ LIBTCCAPI int tcc_add_symbol(TCCState *s1, const char *name, const void *val)
     }
     set_global_sym(s1, name, NULL, (addr_t)(uintptr_t)val); /* NULL: SHN_ABS */
 #endif
-    return 0;
+    return s1->nb_errors > nb_errors ? -1 : 0;
 }
 
 LIBTCCAPI void tcc_set_lib_path(TCCState *s, const char *path)
diff --git a/src/cjit.c b/src/cjit.c
index 532040f..c967e14 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -199,7 +199,10 @@ static bool cjit_setup(CJITState *cjit) {
 		return(false);
 	}
 #endif
-	tcc_set_output_type(tcc(cjit), cjit->tcc_output);
+	if(tcc_set_output_type(tcc(cjit), cjit->tcc_output)<0) {
+		_err("error loading the startup files");
+		return(false);
+	}
 #if defined(LIBC_MUSL)
 	tcc_add_libc_symbols(tcc(cjit));
 #endif
-- 
2.43.0


From af91a2d9acb5c147a45a733c1187f7e363163d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:56 +0000
Subject: [PATCH 70/90] fix: tcc: a script naming a missing file is an error,
 not a file that was not found

---
 lib/tinycc/libtcc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/libtcc.c b/lib/tinycc/libtcc.c
index 1c08fc8..30fdabf 100644
--- a/lib/tinycc/libtcc.c
+++ b/lib/tinycc/libtcc.c
@@ -1102,8 +1102,8 @@ ST_FUNC int tcc_add_file_internal(TCCState *s1, const char *filename, int flags)
 #endif /* pe / macos / unix */
 
 check_success:
-            if (ret < 0)
-                tcc_error_noabort("%s: unrecognized file type", filename);
+            if (ret < 0) /* not FILE_NOT_FOUND, the file itself was there */
+                ret = tcc_error_noabort("%s: unrecognized file type", filename);
             break;
 
 #ifdef TCC_TARGET_COFF
-- 
2.43.0


From 7ae83df2bf049bac2687ec063e0d6ba06cc623b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:05 +0000
Subject: [PATCH 71/90] fix: tcc: compiling the runtime stubs no longer forgets
 the errors of the link

---
 lib/tinycc/tccelf.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 7327849..8ed0b44 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -1539,10 +1539,13 @@ static void tcc_compile_string_no_debug(TCCState *s, const char *str)
 {
     int save_do_debug = s->do_debug;
     int save_test_coverage = s->test_coverage;
+    int nb_errors = s->nb_errors;
 
     s->do_debug = 0;
     s->test_coverage = 0;
     tcc_compile_string(s, str);
+    /* tcc_compile() counts from zero, keep the errors of the link */
+    s->nb_errors += nb_errors;
     s->do_debug = save_do_debug;
     s->test_coverage = save_test_coverage;
 }
@@ -2813,7 +2816,6 @@ static int elf_output_file(TCCState *s1, const char *filename)
     int textrel, got_sym, dt_flags_1;
 
     file_type = s1->output_type;
-    s1->nb_errors = 0;
     ret = -1;
     interp = dynstr = dynamic = NULL;
     sec_order = NULL;
@@ -2996,7 +2998,8 @@ static int elf_output_obj(TCCState *s1, const char *filename)
 {
     Section *s;
     int i, ret, file_offset;
-    s1->nb_errors = 0;
+    if (s1->nb_errors != 0)
+        return -1;
     /* Allocate strings for section names */
     alloc_sec_names(s1, 1);
     file_offset = sizeof (ElfW(Ehdr));
@@ -3014,6 +3017,7 @@ static int elf_output_obj(TCCState *s1, const char *filename)
 
 LIBTCCAPI int tcc_output_file(TCCState *s, const char *filename)
 {
+    s->nb_errors = 0;
     if (s->test_coverage)
         tcc_tcov_add_file(s, filename);
     if (s->output_type == TCC_OUTPUT_OBJ)
-- 
2.43.0


From 57ed61f20e8bb2c40c1a266eee3dcf2113d47867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 72/90] fix: asm: pavgb and pavgw of SSE registers are not
 assembled to the MMX instructions

---
 lib/tinycc/x86_64-asm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/x86_64-asm.h b/lib/tinycc/x86_64-asm.h
index 339e1df..53b61bb 100644
--- a/lib/tinycc/x86_64-asm.h
+++ b/lib/tinycc/x86_64-asm.h
@@ -512,8 +512,8 @@ ALT(DEF_ASM_OP2(movhps, 0x0f17, 0, OPC_MODRM, OPT_SSE, OPT_EA | OPT_REG32 ))
     DEF_ASM_OP2(maxps, 0x0f5f, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(minps, 0x0f5d, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(mulps, 0x0f59, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
-    DEF_ASM_OP2(pavgb, 0x0fe0, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
-    DEF_ASM_OP2(pavgw, 0x0fe3, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
+    DEF_ASM_OP2(pavgb, 0x0fe0, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
+    DEF_ASM_OP2(pavgw, 0x0fe3, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
     DEF_ASM_OP2(pmaxsw, 0x0fee, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
     DEF_ASM_OP2(pmaxub, 0x0fde, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
     DEF_ASM_OP2(pminsw, 0x0fea, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
-- 
2.43.0


From 0ead2b329fdd2f1f94c8ae23c6d905db00ee071f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 73/90] fix: asm: rcpss is not assembled to rcpps

---
 lib/tinycc/x86_64-asm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/x86_64-asm.h b/lib/tinycc/x86_64-asm.h
index 53b61bb..e4c4488 100644
--- a/lib/tinycc/x86_64-asm.h
+++ b/lib/tinycc/x86_64-asm.h
@@ -518,7 +518,7 @@ ALT(DEF_ASM_OP2(movhps, 0x0f17, 0, OPC_MODRM, OPT_SSE, OPT_EA | OPT_REG32 ))
     DEF_ASM_OP2(pmaxub, 0x0fde, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
     DEF_ASM_OP2(pminsw, 0x0fea, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
     DEF_ASM_OP2(pminub, 0x0fda, 0, OPC_MODRM, OPT_EA | OPT_MMXSSE, OPT_MMXSSE )
-    DEF_ASM_OP2(rcpss, 0x0f53, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
+    DEF_ASM_OP2(rcpss, 0xf30f53, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(rsqrtps, 0x0f52, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(sqrtps, 0x0f51, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
     DEF_ASM_OP2(subps, 0x0f5c, 0, OPC_MODRM, OPT_EA | OPT_SSE, OPT_SSE )
-- 
2.43.0


From 14ebe6cc09be5666e6d2eb96bd35582bd3f6e5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 74/90] fix: asm: fcom without operands is not assembled to a
 popping compare

---
 lib/tinycc/x86_64-asm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/x86_64-asm.h b/lib/tinycc/x86_64-asm.h
index e4c4488..d28837c 100644
--- a/lib/tinycc/x86_64-asm.h
+++ b/lib/tinycc/x86_64-asm.h
@@ -254,7 +254,8 @@ ALT(DEF_ASM_OP1(jo, 0x70, 0, OPC_TEST, OPT_DISP8))
     DEF_ASM_OP1(jecxz, 0x67e3, 0, 0, OPT_DISP8)
 
      /* float */
-     /* specific fcomp handling */
+     /* specific fcom and fcomp handling */
+ALT(DEF_ASM_OP0L(fcom, 0xd8d1, 0, 0))
 ALT(DEF_ASM_OP0L(fcomp, 0xd8d9, 0, 0))
 
 ALT(DEF_ASM_OP1(fadd, 0xd8c0, 0, OPC_FARITH | OPC_REG, OPT_ST))
-- 
2.43.0


From d9d4fab6354359086aa1e6c8c6d1846ca9af220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 75/90] fix: asm: pushw of a wide constant takes a 16 bit
 immediate

---
 lib/tinycc/x86_64-asm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/x86_64-asm.h b/lib/tinycc/x86_64-asm.h
index d28837c..bb4761a 100644
--- a/lib/tinycc/x86_64-asm.h
+++ b/lib/tinycc/x86_64-asm.h
@@ -148,7 +148,7 @@ ALT(DEF_ASM_OP1(pushw, 0x50, 0, OPC_REG | OPC_WLX, OPT_REG64))
 ALT(DEF_ASM_OP1(pushw, 0x50, 0, OPC_REG | OPC_WLX, OPT_REG16))
 ALT(DEF_ASM_OP1(pushw, 0xff, 6, OPC_MODRM | OPC_WLX, OPT_REG64 | OPT_EA))
 ALT(DEF_ASM_OP1(pushw, 0x6668, 0, 0, OPT_IM16))
-ALT(DEF_ASM_OP1(pushw, 0x68, 0, OPC_WLX, OPT_IM32))
+ALT(DEF_ASM_OP1(pushw, 0x68, 0, OPC_WLX, OPT_IMW))
 ALT(DEF_ASM_OP1(pushw, 0x06, 0, OPC_WLX, OPT_SEG))
 
 ALT(DEF_ASM_OP1(popw, 0x58, 0, OPC_REG | OPC_WLX, OPT_REG64))
-- 
2.43.0


From fe5330ff7bb1f38eb94499cc1ad550d5fadcac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 76/90] fix: asm: sldt and smsw to a 16 bit register have the
 size prefix

---
 lib/tinycc/x86_64-asm.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/x86_64-asm.h b/lib/tinycc/x86_64-asm.h
index bb4761a..872180f 100644
--- a/lib/tinycc/x86_64-asm.h
+++ b/lib/tinycc/x86_64-asm.h
@@ -386,8 +386,12 @@ ALT(DEF_ASM_OP2(lslw, 0x0f03, 0, OPC_MODRM | OPC_WLX, OPT_EA | OPT_REG, OPT_REG)
     DEF_ASM_OP1(sgdtq, 0x0f01, 0, OPC_MODRM, OPT_EA)
     DEF_ASM_OP1(sidt, 0x0f01, 1, OPC_MODRM, OPT_EA)
     DEF_ASM_OP1(sidtq, 0x0f01, 1, OPC_MODRM, OPT_EA)
-    DEF_ASM_OP1(sldt, 0x0f00, 0, OPC_MODRM, OPT_REG | OPT_EA)
-    DEF_ASM_OP1(smsw, 0x0f01, 4, OPC_MODRM, OPT_REG | OPT_EA)
+    DEF_ASM_OP1(sldt, 0x0f00, 0, OPC_MODRM, OPT_REG32 | OPT_EA)
+ALT(DEF_ASM_OP1(sldt, 0x660f00, 0, OPC_MODRM, OPT_REG16))
+ALT(DEF_ASM_OP1(sldt, 0x0f00, 0, OPC_MODRM | OPC_48, OPT_REG64))
+    DEF_ASM_OP1(smsw, 0x0f01, 4, OPC_MODRM, OPT_REG32 | OPT_EA)
+ALT(DEF_ASM_OP1(smsw, 0x660f01, 4, OPC_MODRM, OPT_REG16))
+ALT(DEF_ASM_OP1(smsw, 0x0f01, 4, OPC_MODRM | OPC_48, OPT_REG64))
     DEF_ASM_OP1(str, 0x0f00, 1, OPC_MODRM, OPT_REG32 | OPT_EA)
 ALT(DEF_ASM_OP1(str, 0x660f00, 1, OPC_MODRM, OPT_REG16))
 ALT(DEF_ASM_OP1(str, 0x0f00, 1, OPC_MODRM | OPC_48, OPT_REG64))
-- 
2.43.0


From c5b3e09a952f4daea212295ca8581ac51f829b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 77/90] fix: asm: xchg %eax,%eax is not a nop

---
 lib/tinycc/i386-asm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/tinycc/i386-asm.c b/lib/tinycc/i386-asm.c
index 33783d5..415320d 100644
--- a/lib/tinycc/i386-asm.c
+++ b/lib/tinycc/i386-asm.c
@@ -805,6 +805,12 @@ again:
 	    && (ops[1].type & OP_REG) == OP_REG64
 	    && !(pa->instr_type & OPC_0F))
 	    continue;
+	/* The short form of xchg is a nop when both operands are %eax, but
+	   the exchange clears the upper half of %rax.  */
+	if (pa->opcode == 0x90 && nb_ops == 2
+	    && (ops[0].type & ops[1].type & OP_REG32)
+	    && ops[0].reg == ops[1].reg)
+	    continue;
 #endif
         /* now decode and check each operand */
 	alltypes = 0;
-- 
2.43.0


From 8fea25205a0721d79098d4947a6ccdef93108156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 78/90] fix: asm: operands of an instruction that takes none
 are an error

---
 lib/tinycc/i386-asm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/i386-asm.c b/lib/tinycc/i386-asm.c
index 415320d..259c789 100644
--- a/lib/tinycc/i386-asm.c
+++ b/lib/tinycc/i386-asm.c
@@ -855,7 +855,7 @@ again:
     next: ;
     }
     if (pa->sym == 0) {
-        if (opcode >= TOK_ASM_first && opcode <= TOK_ASM_last) {
+        if (opcode >= TOK_ASM_first && opcode <= TOK_ASM_last && !nb_ops) {
             int b;
             b = op0_codes[opcode - TOK_ASM_first];
             if (b & 0xff00) 
-- 
2.43.0


From 3b49adb71e7b05d399ca1442f070c7cd899a4b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 79/90] fix: asm: a displacement from %rip without a symbol is
 not moved by 4

---
 lib/tinycc/i386-asm.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/i386-asm.c b/lib/tinycc/i386-asm.c
index 259c789..31c8868 100644
--- a/lib/tinycc/i386-asm.c
+++ b/lib/tinycc/i386-asm.c
@@ -547,7 +547,12 @@ static inline int asm_modrm(int reg, Operand *op)
     } else if (op->reg == -2) {
         ExprValue *pe = &op->e;
         g(0x05 + (reg << 3));
-        gen_addrpc32(pe->sym ? VT_SYM : 0, pe->sym, pe->v);
+        if (!pe->sym) {
+            /* a plain displacement, already relative to the next insn */
+            gen_le32(pe->v);
+            return 0;
+        }
+        gen_addrpc32(VT_SYM, pe->sym, pe->v);
         return ind;
 #endif
     } else {
-- 
2.43.0


From 0dae00db131a4e2c4938c10ba0ae3a15a3adb2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:44 +0000
Subject: [PATCH 80/90] fix: atomic: keep the result pointer of
 __atomic_load/exchange across the call

The pointer given for the result was popped off the value stack before
the helper was called.  When it was in a register (any pointer that is
not the address of a variable), the call overwrote it and the result
was stored through garbage.
---
 lib/tinycc/tccgen.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 5f9b77a..7fe6533 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -5334,7 +5334,6 @@ static void parse_atomic(int atok)
 {
     int size, align, arg, t, save = 0;
     CType *atom, *atom_ptr, ct = {0};
-    SValue store;
     char buf[40];
     static const char *const templates[] = {
         /*
@@ -5413,8 +5412,8 @@ static void parse_atomic(int atok)
         case 's':
             save = 1;
             indir();
-            store = *vtop;
-            vpop();
+            /* keep it (maybe in a register) on the stack, below the call */
+            vrott(arg + 1);
             break;
         case 'm':
             gen_assign_cast(&int_type);
@@ -5456,12 +5455,8 @@ static void parse_atomic(int atok)
 #endif
     }
     gen_cast(&ct);
-    if (save) {
-        vpush(&ct);
-        *vtop = store;
-        vswap();
+    if (save)
         vstore();
-    }
 }
 
 ST_FUNC void unary(void)
-- 
2.43.0


From 319eb80c4ea04f964d6c88e2b4eac3558571f45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:44 +0000
Subject: [PATCH 81/90] fix: atomic: pass floats and structures to the helpers
 as integers

The helpers take and return integers of the object's size, but float,
double and struct objects were passed and returned in the registers or
memory of their own type: __atomic_store of a double stored garbage,
__atomic_load of a struct crashed.
---
 lib/tinycc/tccgen.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 7fe6533..116fdf0 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -5333,7 +5333,7 @@ static void parse_builtin_params(int nc, const char *args)
 static void parse_atomic(int atok)
 {
     int size, align, arg, t, save = 0;
-    CType *atom, *atom_ptr, ct = {0};
+    CType *atom, *atom_ptr, raw = {0}, ct = {0};
     char buf[40];
     static const char *const templates[] = {
         /*
@@ -5394,6 +5394,12 @@ static void parse_atomic(int atok)
             /* GCC does not care either: */
             /* if (!(atom->t & VT_ATOMIC))
                 tcc_warning("pointer target declaration is missing '_Atomic'"); */
+            if ((atom->t & VT_BTYPE) == VT_STRUCT || is_float(atom->t)) {
+                /* the helpers take and return integers: move the raw bits */
+                raw.t = size == 8 ? VT_LLONG : size == 4 ? VT_INT
+                      : size == 2 ? VT_SHORT : VT_BYTE;
+                atom = &raw;
+            }
             break;
 
         case 'p':
@@ -5406,14 +5412,20 @@ static void parse_atomic(int atok)
             gen_assign_cast(atom);
             break;
         case 'l':
-            indir();
-            gen_assign_cast(atom);
-            break;
         case 's':
-            save = 1;
             indir();
-            /* keep it (maybe in a register) on the stack, below the call */
-            vrott(arg + 1);
+            if (raw.t) {
+                if (type_size(&vtop->type, &align) != size)
+                    tcc_error("pointer target type mismatch in argument %d", arg + 1);
+                vtop->type = raw;
+            }
+            if (template[arg] == 'l') {
+                gen_assign_cast(atom);
+            } else {
+                /* keep it (maybe in a register) on the stack, below the call */
+                save = 1;
+                vrott(arg + 1);
+            }
             break;
         case 'm':
             gen_assign_cast(&int_type);
-- 
2.43.0


From 6143a0d40d5c8f836d1a2f38641c3a33bec2c5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:44 +0000
Subject: [PATCH 82/90] fix: stdatomic.h: do not capture the program's
 variables in the macros

The macros declared locals named ptr, tmp and val, so that for example
atomic_store(&a, tmp) stored the macro's own uninitialised tmp.
---
 lib/tinycc/include/stdatomic.h | 37 +++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/lib/tinycc/include/stdatomic.h b/lib/tinycc/include/stdatomic.h
index 2d423d1..1276060 100644
--- a/lib/tinycc/include/stdatomic.h
+++ b/lib/tinycc/include/stdatomic.h
@@ -95,44 +95,45 @@ typedef struct {
     atomic_store_explicit(object, desired, __ATOMIC_RELAXED)
 
 #define atomic_store_explicit(object, desired, order)                     \
-    ({ __typeof__ (object) ptr = (object);                                \
-       __typeof__ (*ptr) tmp = (desired);                                 \
-       __atomic_store (ptr, &tmp, (order));                               \
+    ({ __typeof__ (object) __atomic_ptr = (object);                       \
+       __typeof__ (*__atomic_ptr) __atomic_tmp = (desired);               \
+       __atomic_store (__atomic_ptr, &__atomic_tmp, (order));             \
     })
 #define atomic_store(object, desired)                                     \
      atomic_store_explicit (object, desired, __ATOMIC_SEQ_CST)
 
 #define atomic_load_explicit(object, order)                               \
-    ({ __typeof__ (object) ptr = (object);                                \
-       __typeof__ (*ptr) tmp;                                             \
-       __atomic_load (ptr, &tmp, (order));                                \
-       tmp;                                                               \
+    ({ __typeof__ (object) __atomic_ptr = (object);                       \
+       __typeof__ (*__atomic_ptr) __atomic_tmp;                           \
+       __atomic_load (__atomic_ptr, &__atomic_tmp, (order));              \
+       __atomic_tmp;                                                      \
     })
 #define atomic_load(object) atomic_load_explicit (object, __ATOMIC_SEQ_CST)
 
 #define atomic_exchange_explicit(object, desired, order)                  \
-    ({ __typeof__ (object) ptr = (object);                                \
-       __typeof__ (*ptr) val = (desired);                                 \
-       __typeof__ (*ptr) tmp;                                             \
-       __atomic_exchange (ptr, &val, &tmp, (order));                      \
-       tmp;                                                               \
+    ({ __typeof__ (object) __atomic_ptr = (object);                       \
+       __typeof__ (*__atomic_ptr) __atomic_val = (desired);               \
+       __typeof__ (*__atomic_ptr) __atomic_tmp;                           \
+       __atomic_exchange (__atomic_ptr, &__atomic_val, &__atomic_tmp,     \
+                          (order));                                       \
+       __atomic_tmp;                                                      \
     })
 #define atomic_exchange(object, desired)                                  \
   atomic_exchange_explicit (object, desired, __ATOMIC_SEQ_CST)
 
 #define atomic_compare_exchange_strong_explicit(object, expected, desired, success, failure) \
-    ({ __typeof__ (object) ptr = (object);                                \
-       __typeof__ (*ptr) tmp = desired;                                   \
-       __atomic_compare_exchange(ptr, expected, &tmp, 0, success, failure); \
+    ({ __typeof__ (object) __atomic_ptr = (object);                       \
+       __typeof__ (*__atomic_ptr) __atomic_tmp = desired;                 \
+       __atomic_compare_exchange(__atomic_ptr, expected, &__atomic_tmp, 0, success, failure); \
     })
 #define atomic_compare_exchange_strong(object, expected, desired)         \
     atomic_compare_exchange_strong_explicit (object, expected, desired,   \
                                              __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)
 
 #define atomic_compare_exchange_weak_explicit(object, expected, desired, success, failure) \
-    ({ __typeof__ (object) ptr = (object);                                \
-       __typeof__ (*ptr) tmp = desired;                                   \
-       __atomic_compare_exchange(ptr, expected, &tmp, 1, success, failure); \
+    ({ __typeof__ (object) __atomic_ptr = (object);                       \
+       __typeof__ (*__atomic_ptr) __atomic_tmp = desired;                 \
+       __atomic_compare_exchange(__atomic_ptr, expected, &__atomic_tmp, 1, success, failure); \
     })
 #define atomic_compare_exchange_weak(object, expected, desired)           \
     atomic_compare_exchange_weak_explicit (object, expected, desired,     \
-- 
2.43.0


From 31a35cc43b13dbbf82fb1c4e6935577603b8fe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:23 +0000
Subject: [PATCH 83/90] fix: hexadecimal floating constants with more than 64
 bits lost their high bits

---
 lib/tinycc/tccpp.c | 68 ++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 32 deletions(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 0da9742..08c7d2d 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -2224,26 +2224,20 @@ static void parse_string(const char *s, int len)
     }
 }
 
-/* we use 64 bit numbers */
-#define BN_SIZE 2
-
-/* bn = (bn << shift) | or_val */
-static void bn_lshift(unsigned int *bn, int shift, int or_val)
-{
-    int i;
-    unsigned int v;
-    for(i=0;i<BN_SIZE;i++) {
-        v = bn[i];
-        bn[i] = (v << shift) | or_val;
-        or_val = v >> (32 - shift);
-    }
-}
-
-static void bn_zero(unsigned int *bn)
-{
-    int i;
-    for(i=0;i<BN_SIZE;i++) {
-        bn[i] = 0;
+/* append the 'shift' low bits of 'val' to the 64 bit number bn. Bits there is
+   no room for are counted in *lost; *rest tells the first of them (2) and
+   whether another one was set (1). */
+static void bn_lshift(unsigned long long *bn, int shift, int val, int *lost, int *rest)
+{
+    int bit;
+    while (shift--) {
+        bit = (val >> shift) & 1;
+        if (0 == (*bn >> 63))
+            *bn = (*bn << 1) | bit;
+        else if ((*lost)++ == 0)
+            *rest = bit << 1;
+        else
+            *rest |= bit;
     }
 }
 
@@ -2251,10 +2245,10 @@ static void bn_zero(unsigned int *bn)
    current token */
 static void parse_number(const char *p)
 {
-    int b, t, shift, frac_bits, s, exp_val, ch;
+    int b, t, shift, frac_bits, s, exp_val, ch, lost, rest;
     char *q;
-    unsigned int bn[BN_SIZE];
-    double d;
+    unsigned long long bn;
+    long double d;
 
     /* number */
     q = token_buf;
@@ -2310,7 +2304,8 @@ static void parse_number(const char *p)
                 shift = 4;
             else 
                 shift = 1;
-            bn_zero(bn);
+            bn = 0;
+            lost = rest = 0;
             q = token_buf;
             while (1) {
                 t = *q++;
@@ -2323,7 +2318,7 @@ static void parse_number(const char *p)
                 } else {
                     t = t - '0';
                 }
-                bn_lshift(bn, shift, t);
+                bn_lshift(&bn, shift, t, &lost, &rest);
             }
             frac_bits = 0;
             if (ch == '.') {
@@ -2341,7 +2336,7 @@ static void parse_number(const char *p)
                     }
                     if (t >= b)
                         tcc_error("invalid digit");
-                    bn_lshift(bn, shift, t);
+                    bn_lshift(&bn, shift, t, &lost, &rest);
                     frac_bits += shift;
                     ch = *p++;
                 }
@@ -2367,9 +2362,19 @@ static void parse_number(const char *p)
             
             /* now we can generate the number */
             /* XXX: should patch directly float number */
-            d = (double)bn[1] * 4294967296.0 + (double)bn[0];
-            d = ldexp(d, exp_val - frac_bits);
+            exp_val += lost - frac_bits;
             t = toup(ch);
+            if (t == 'L') {
+                /* the bits lost round the number, ties to even */
+                d = (long double)bn;
+                if (rest > 2 || (rest == 2 && (bn & 1)))
+                    d += 1;
+            } else {
+                /* they only matter when the rest is halfway between two
+                   numbers of these narrower types */
+                d = (long double)(bn | (rest != 0));
+            }
+            d = ldexpl(d, exp_val);
             if (t == 'F') {
                 ch = *p++;
                 tok = TOK_CFLOAT;
@@ -2379,14 +2384,13 @@ static void parse_number(const char *p)
                 ch = *p++;
                 tok = TOK_CLDOUBLE;
 #ifdef TCC_USING_DOUBLE_FOR_LDOUBLE
-                tokc.d = d;
+                tokc.d = (double)d;
 #else
-                /* XXX: not large enough */
-                tokc.ld = (long double)d;
+                tokc.ld = d;
 #endif
             } else {
                 tok = TOK_CDOUBLE;
-                tokc.d = d;
+                tokc.d = (double)d;
             }
         } else {
             /* decimal floats */
-- 
2.43.0


From d04cc5c25f755f1f644d47ec1a55951a4e0e9c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:23 +0000
Subject: [PATCH 84/90] fix: the integer suffixes lL and lul were accepted

---
 lib/tinycc/tccpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 08c7d2d..711de24 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -2489,7 +2489,7 @@ static void parse_number(const char *p)
             if (t == 'L') {
                 if (lcount >= 2)
                     tcc_error("three 'l's in integer constant");
-                if (lcount && *(p - 1) != ch)
+                if (lcount && *(p - 2) != ch)
                     tcc_error("incorrect integer suffix: %s", p1);
                 lcount++;
                 ch = *p++;
-- 
2.43.0


From e021924be65d35da07e7c4b3ff4d9856c0d5404c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:38 +0000
Subject: [PATCH 85/90] fix: 0x and 0b without any digit were accepted as
 constants

---
 lib/tinycc/tccpp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 711de24..87a7d99 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -2290,6 +2290,9 @@ static void parse_number(const char *p)
         *q++ = ch;
         ch = *p++;
     }
+    /* no digit after 0x or 0b */
+    if (q == token_buf && (ch != '.' || *p == 'p' || *p == 'P'))
+        tcc_error("invalid number");
     if (ch == '.' ||
         ((ch == 'e' || ch == 'E') && b == 10) ||
         ((ch == 'p' || ch == 'P') && (b == 16 || b == 2))) {
-- 
2.43.0


From 092a438bf215d36c81c617d757c362744424557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:09 +0000
Subject: [PATCH 86/90] fix: a macro call with an empty extra last argument was
 accepted

#define f(x) x
f(1,) passes two arguments; C wants a diagnostic.
---
 lib/tinycc/tccpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 87a7d99..20488ec 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -3295,7 +3295,7 @@ static int macro_subst_tok(
                 } while (t == ' ' || --i);
 
                 if (!sa) {
-                    if (t == ')') /* handle '()' case */
+                    if (t == ')' && !s->next) /* handle '()' case */
                         break;
                     tcc_error("macro '%s' used with too many args",
                         get_tok_str(v, 0));
-- 
2.43.0


From 75063b715b630dde268b4a174bee86fbdc153e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:09 +0000
Subject: [PATCH 87/90] fix: #if with a function-like macro's bare name at its
 end ran on into the next line

#define f(x) x
#if f
... the search for '(' swallowed the end of the directive.
---
 lib/tinycc/tccpp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 20488ec..40fad70 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -3191,6 +3191,8 @@ static int peek_file (TokenString *ws_str)
         case '\f': case '\v': case '\r':
             continue;
         case '\n':
+            if (pp_expr) /* a directive ends with its line */
+                goto leave;
             file->line_num++, tok_flags |= TOK_FLAG_BOL;
             break;
         default: leave:
-- 
2.43.0


From fe4e941c62f4ed4606fab6b8bc6407910b091e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:09 +0000
Subject: [PATCH 88/90] fix: #line did not expand macros, and a line marker
 with flags counted one line too many

#define n 7
#line n              was refused;
# 60 "w.c" 1 3       made the next line 61.
---
 lib/tinycc/tccpp.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 40fad70..b84928c 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -1931,14 +1931,15 @@ ST_FUNC void preprocess(int is_bof)
         }
         break;
     case TOK_LINE:
-        next_nomacro();
+        parse_flags &= ~(PARSE_FLAG_TOK_NUM | PARSE_FLAG_TOK_STR);
+        next(); /* the line number may come from a macro */
         if (tok != TOK_PPNUM)
     _line_err:
             tcc_error("wrong #line format");
     case TOK_PPNUM:
         parse_number(tokc.str.data);
         n = tokc.i;
-        next_nomacro();
+        (macro_ptr ? next : next_nomacro)();
         if (tok != TOK_LINEFEED) {
             if (tok == TOK_PPSTR && tokc.str.data[0] == '"') {
                 tokc.str.data[tokc.str.size - 2] = 0;
@@ -1947,12 +1948,14 @@ ST_FUNC void preprocess(int is_bof)
                 goto ignore;
             else
                 goto _line_err;
-            next_nomacro();
+            do /* skip optional flags */
+                (macro_ptr ? next : next_nomacro)();
+            while (tok != TOK_LINEFEED && tok != TOK_EOF);
         }
         if (file->fd > 0)
             total_lines += file->line_num - n;
         file->line_num = n;
-        goto ignore; /* skip optional level number */
+        goto ignore;
 
     case TOK_ERROR:
     case TOK_WARNING:
-- 
2.43.0


From 9e8197061f5c6677b6424239368ec5277e648d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:09 +0000
Subject: [PATCH 89/90] fix: #if evaluated int arithmetic in 32 bits and
 refused constants beyond 32 bits

In a preprocessor expression every integer acts as intmax_t or uintmax_t:
#if 0x100000000 was refused, 2147483647 + 1 < 0 was true.
---
 lib/tinycc/tcc.h    |  1 +
 lib/tinycc/tccgen.c |  3 +--
 lib/tinycc/tccpp.c  | 10 ++++++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/tinycc/tcc.h b/lib/tinycc/tcc.h
index 7bae6af..d9c8f58 100644
--- a/lib/tinycc/tcc.h
+++ b/lib/tinycc/tcc.h
@@ -1512,6 +1512,7 @@ ST_FUNC void indir(void);
 ST_FUNC void unary(void);
 ST_FUNC void gexpr(void);
 ST_FUNC int expr_const(void);
+ST_FUNC int64_t expr_const64(void);
 #if defined CONFIG_TCC_BCHECK || defined TCC_TARGET_C67
 ST_FUNC Sym *get_sym_ref(CType *type, Section *sec, unsigned long offset, unsigned long size);
 #endif
diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 116fdf0..e7daa83 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -146,7 +146,6 @@ static int decl(int l);
 static void expr_eq(void);
 static void vpush_type_size(CType *type, int *a);
 static int is_compatible_unqualified_types(CType *type1, CType *type2);
-static inline int64_t expr_const64(void);
 static void vpush64(int ty, unsigned long long v);
 static void vpush(CType *type);
 static int gvtst(int inv, int t);
@@ -6606,7 +6605,7 @@ static void expr_const1(void)
 }
 
 /* parse an integer constant and return its value. */
-static inline int64_t expr_const64(void)
+ST_FUNC int64_t expr_const64(void)
 {
     int64_t c;
     expr_const1();
diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index b84928c..e0cd1e9 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -1459,6 +1459,7 @@ static int parse_include(TCCState *s1, int do_next, int test)
 static int expr_preprocess(TCCState *s1)
 {
     int c, t;
+    int64_t val;
     int t0 = tok;
     TokenString *str;
     
@@ -1512,6 +1513,8 @@ static int expr_preprocess(TCCState *s1)
             tok = TOK_CINT;
             tokc.i = 0;
         }
+        if (tok == TOK_CINT || tok == TOK_CCHAR || tok == TOK_LCHAR)
+            tok = TOK_CLLONG; /* integers act like intmax_t */
         tok_str_add_tok(str);
     }
     if (0 == str->len)
@@ -1522,13 +1525,13 @@ static int expr_preprocess(TCCState *s1)
     /* now evaluate C constant expression */
     begin_macro(str, 1);
     next();
-    c = expr_const();
+    val = expr_const64();
     if (tok != TOK_EOF)
         tcc_error("...");
     pp_expr = 0;
     end_macro();
     tok = t; /* restore LF or EOF */
-    return c != 0;
+    return val != 0;
 }
 
 ST_FUNC void pp_error(CString *cs)
@@ -2509,6 +2512,9 @@ static void parse_number(const char *p)
             }
         }
 
+        if (pp_expr) /* in #if, integers act like intmax_t or uintmax_t */
+            lcount = 2;
+
         /* Determine if it needs 64 bits and/or unsigned in order to fit */
         if (ucount == 0 && b == 10) {
             if (lcount <= (LONG_SIZE == 4)) {
-- 
2.43.0


From 26e6672a365b12558e65810d6ba21b23a5322091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:47 +0000
Subject: [PATCH 90/90] fix: truth values in #if expressions had 32 bits

The result of a comparison, !, && or || acts as intmax_t there:
#if (1 == 1) << 32 was false.
---
 lib/tinycc/tccgen.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index e7daa83..272fe29 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -3095,8 +3095,8 @@ op_err:
         else
             gen_opic(op);
         if (op_class == CMP_OP) {
-            /* relational op: the result is an int */
-            vtop->type.t = VT_INT;
+            /* relational op: the result is an int (intmax_t in #if) */
+            vtop->type.t = pp_expr ? VT_LLONG : VT_INT;
         } else {
             vtop->type.t = t;
         }
@@ -6411,7 +6411,7 @@ static void expr_landor(int op)
     }
     if (cc || f) {
         vpop();
-        vpushi(i ^ f);
+        vpush64(pp_expr ? VT_LLONG : VT_INT, i ^ f);
         gsym(t);
         nocode_wanted -= f;
     } else {
-- 
2.43.0

