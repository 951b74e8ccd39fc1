From 43854d8c6b0b76747a64acebd6ae0238375d3abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 001/111] fix: sim86 distinguishes end of file and 0 byte
 writes from errors

DOS reports end of file with carry clear and AX=0. sim86 set carry, so a
simulated program could not tell a read error from the end of its input.
Byte counts and handles are also taken from the low 16 bits only.
---
 sim86.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/sim86.c b/sim86.c
index 0589925..e52acaa 100644
--- a/sim86.c
+++ b/sim86.c
@@ -629,6 +629,18 @@ void DoExit(int ec)
     exit(ec);
 }
 
+// Set AX and carry from result of read/write, note: 0 bytes (e.g. EOF) isn't an error
+void FileResult(int r)
+{
+    if (r == -1) {
+        flags |= FC;
+        r = 5; // Access denied
+    } else {
+        flags &= ~FC;
+    }
+    reg[R_AX] = r;
+}
+
 void INT(void)
 {
     const int intr = ReadIByte();
@@ -655,23 +667,9 @@ void INT(void)
         close(reg[R_BX]);
         flags &= ~FC;
     } else if (func == 0x3F) {
-        int r = ReadToMem(reg[R_BX], reg[R_DX], reg[R_CX]);
-        if (r <= 0) {
-            flags |= FC;
-            r = 0;
-        } else {
-            flags &= ~FC;
-        }
-        reg[R_AX] = r;
+        FileResult(ReadToMem(TRIM(reg[R_BX]), reg[R_DX], TRIM(reg[R_CX])));
     } else if (func == 0x40) {
-        int r = WriteFromMem(reg[R_BX], reg[R_DX], reg[R_CX]);
-        if (r <= 0) {
-            flags |= FC;
-            r = 0;
-        } else {
-            flags &= ~FC;
-        }
-        reg[R_AX] = r;
+        FileResult(WriteFromMem(TRIM(reg[R_BX]), reg[R_DX], TRIM(reg[R_CX])));
     } else if (func == 0x4C) {
         DoExit(reg[R_AX]&0xff);
     } else {
-- 
2.43.0


From 7465e8d1432f57973e0429f9cca31eddc62baabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 002/111] fix: read, write and close of lib.h report errors

read returned 0 for errors, which is what it returns at end of file, and
the result of closing a file was lost.
---
 lib.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib.h b/lib.h
index c243f45..9b969bb 100644
--- a/lib.h
+++ b/lib.h
@@ -98,17 +98,17 @@ int open(const char* filename, int flags, ...)
     return ax;
 }
 
-void close(int fd)
+int close(int fd)
 {
     int ax = 0x3e00;
-    DosCall(&ax, fd, 0, 0);
+    return DosCall(&ax, fd, 0, 0);
 }
 
 int read(int fd, char* buf, int count)
 {
     int ax = 0x3f00;
     if (DosCall(&ax, fd, count, buf))
-        return 0;
+        return -1;
     return ax;
 }
 
@@ -116,7 +116,7 @@ int write(int fd, const char* buf, int count)
 {
     int ax = 0x4000;
     if (DosCall(&ax, fd, count, buf))
-        return 0;
+        return -1;
     return ax;
 }
 
-- 
2.43.0


From c485749b6620e8beac13c35d88a72ac81c43a651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 003/111] fix: sim86 reports failure to close a file

---
 sim86.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sim86.c b/sim86.c
index e52acaa..2349677 100644
--- a/sim86.c
+++ b/sim86.c
@@ -664,8 +664,12 @@ void INT(void)
         HandleOpen(O_RDONLY);
     } else if (func == 0x3E) {
         if (verbose) printf("\nclose(%d)\n", reg[R_BX]);
-        close(reg[R_BX]);
-        flags &= ~FC;
+        if (close(TRIM(reg[R_BX]))) {
+            flags |= FC;
+            reg[R_AX] = 6; // Invalid handle
+        } else {
+            flags &= ~FC;
+        }
     } else if (func == 0x3F) {
         FileResult(ReadToMem(TRIM(reg[R_BX]), reg[R_DX], TRIM(reg[R_CX])));
     } else if (func == 0x40) {
-- 
2.43.0


From 9fa105d404f0ed3deb312d269645730df5edf850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 004/111] fix: sim86 doesn't overflow its buffer on long file
 names

---
 sim86.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/sim86.c b/sim86.c
index 2349677..0fc3cae 100644
--- a/sim86.c
+++ b/sim86.c
@@ -536,19 +536,26 @@ void DEC(void)
     DoIncDec(-1);
 }
 
-void ReadAsciiz(char* dest, int sr, int off)
+// Returns non-zero if the string (including the terminator) fits in size bytes
+int ReadAsciiz(char* dest, int size, int sr, int off)
 {
-    int ch;
-    do {
-        ch = Read8(sr, off++);
+    while (size--) {
+        const int ch = Read8(sr, off++);
         *dest++ = (char)ch;
-    } while (ch); 
+        if (!ch)
+            return 1;
+    }
+    return 0;
 }
 
 void HandleOpen(int oflags)
 {
-    char fname[64];
-    ReadAsciiz(fname, SR_DS, reg[R_DX]);
+    char fname[128];
+    if (!ReadAsciiz(fname, sizeof(fname), SR_DS, reg[R_DX])) {
+        flags |= FC;
+        reg[R_AX] = 3; // Path not found
+        return;
+    }
     int fd = open(fname, O_BINARY | oflags, 0600);
     if (verbose) printf("\nopen(%s, %d) -> %d\n", fname, oflags, fd);
     if (fd < 0) {
-- 
2.43.0


From 0a660b741e5c495edb15996ce0400213580401d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 005/111] fix: sim86 only starts a program that was loaded
 completely

The result of a single read was ignored: a short read or a read error
started a truncated program. Also don't overflow the message buffer when
the file name is long.
---
 sim86.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sim86.c b/sim86.c
index 0fc3cae..cef39f0 100644
--- a/sim86.c
+++ b/sim86.c
@@ -446,12 +446,20 @@ void ReadFile(const char* Filename)
 {
     const int fd = open(Filename, O_BINARY | O_RDONLY);
     if (fd < 0) {
-        Fatal("Error opening %s", Filename);
+        Fatal("Error opening file"); // Fatal prints the filename
     }
+    // The last two bytes of the segment are needed for the stack
+    unsigned size = 0;
+    int r;
+    while ((r = ReadToMem(fd, LOAD_OFFSET + size, 65536 - LOAD_OFFSET - size)) && r != -1)
+        size += r;
+    if (r == -1)
+        Fatal("Error reading file");
+    if (size > 65536 - LOAD_OFFSET - 2)
+        Fatal("File too large");
 #ifdef PROFILING
-    file_size =
+    file_size = size;
 #endif
-    ReadToMem(fd, LOAD_OFFSET, 65536-LOAD_OFFSET);
     close(fd);
 }
 
-- 
2.43.0


From 93628c09c5b0ec447afea51c56ad999ce17168f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 006/111] fix: sim86 keeps console output in order

Output of INT 21/02 is buffered, output of INT 21/40 was written directly.
---
 sim86.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim86.c b/sim86.c
index cef39f0..5d3bf6f 100644
--- a/sim86.c
+++ b/sim86.c
@@ -438,6 +438,7 @@ int WriteFromMem(int fd, int off, int size)
     _emit 0x0E // PUSH CS
     _emit 0x1F // POP DS
 #else
+    fflush(stdout); // Keep the order if output has been written with putchar
     return write(fd, mem+MAKEADDR(SR_DS, off), size);
 #endif
 }
-- 
2.43.0


From 3c3e23481055fec1c6c5bc6e25e4922660f196da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:16 +0000
Subject: [PATCH 007/111] fix: sim86 terminates the command tail correctly

The CR was written one byte too far, and too long a command line
overwrote the program.
---
 sim86.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index 5d3bf6f..48ad83b 100644
--- a/sim86.c
+++ b/sim86.c
@@ -761,9 +761,11 @@ int main(int argc, char** argv)
     for (i = argi + 1; argv[i]; ++i) {
         if (i != 2) Write8(SR_DS, 0x81+(p++), ' ');
         const char* s = argv[i];
+        if (p + strlen(s) > 126)
+            Fatal("Command line too long");
         while (*s) Write8(SR_DS, 0x81+(p++), *s++);
     }
-    Write8(SR_DS, 0x82+p, '\r');
+    Write8(SR_DS, 0x81+p, '\r');
     Write8(SR_DS, 0x80, p);
 
     DoPush(0);
-- 
2.43.0


From 38b4f04a5e020962ca11c72a93d964f1bd7312b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 008/111] fix: scc reports read errors on the input file

A failed read was added to the buffer pointer as -1, so the previous buffer
content was compiled again (or, in the DOS build, the input was silently
truncated) and the compiler could exit with status 0.
---
 scc.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index 9f267b3..5676da6 100644
--- a/scc.c
+++ b/scc.c
@@ -102,17 +102,17 @@ int open(const char* filename, int flags, ...)
     return ax;
 }
 
-void close(int fd)
+int close(int fd)
 {
     int ax = 0x3e00;
-    DosCall(&ax, fd, 0, 0);
+    return DosCall(&ax, fd, 0, 0);
 }
 
 int read(int fd, char* buf, int count)
 {
     int ax = 0x3f00;
     if (DosCall(&ax, fd, count, buf))
-        return 0;
+        return -1;
     return ax;
 }
 
@@ -544,7 +544,10 @@ void NextChar(void)
     if ((CurChar = *InBufPtr++))
         return;
     InBufPtr = InBuf;
-    InBufEnd = InBuf + read(InFile, InBuf, INBUF_MAX);
+    const int Count = read(InFile, InBuf, INBUF_MAX);
+    if (Count < 0)
+        Fatal("Error reading input file");
+    InBufEnd = InBuf + Count;
     *InBufEnd = 0;
     if (InBufPtr == InBufEnd) {
         CurChar = 0;
-- 
2.43.0


From 9a97f7b0c690069d4b22da32cc440732e6a2d754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 009/111] fix: scc reports failed or short writes of its
 outputs

The results of writing and closing the map file and the executable were
ignored: a full disk gave exit status 0 and a truncated program.
---
 scc.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index 5676da6..ce48a07 100644
--- a/scc.c
+++ b/scc.c
@@ -1148,6 +1148,18 @@ void EmitLocalLabel(int l)
     Labels[l].Ref = 0;
 }
 
+void WriteOutput(int fd, const void* buf, int count)
+{
+    if (write(fd, buf, count) != count)
+        Fatal("Error writing output file");
+}
+
+void CloseOutput(int fd)
+{
+    if (close(fd))
+        Fatal("Error closing output file");
+}
+
 const char StaticName[] = "@static";
 void EmitGlobalLabel(struct VarDecl* vd)
 {
@@ -1161,7 +1173,7 @@ void EmitGlobalLabel(struct VarDecl* vd)
     P = CopyStr(P, vd->Id == -2 ? StaticName : IdText[vd->Id]);
     *P++ = '\r';
     *P++ = '\n';
-    write(MapFile, IdBufPtr, (int)(P - IdBufPtr));
+    WriteOutput(MapFile, IdBufPtr, (int)(P - IdBufPtr));
 }
 
 void EmitGlobalRef(struct VarDecl* vd)
@@ -3464,15 +3476,15 @@ int main(int argc, char** argv)
     if (CodeAddress - SBSS->Offset != BssSize) Fail();
     EmitGlobalLabel(EBSS);
 
-    close(MapFile);
+    CloseOutput(MapFile);
 
     if (argv[2])
        CopyStr(IdBuffer, argv[2]);
     else
         MakeOutputFilename(argv[1], ".com");
     const int OutFile = OpenOutput();
-    write(OutFile, Output, CodeAddress - BssSize - CODESTART);
-    close(OutFile);
+    WriteOutput(OutFile, Output, CodeAddress - BssSize - CODESTART);
+    CloseOutput(OutFile);
 
     return 0;
 }
-- 
2.43.0


From 9213ef435578f0522dd271d19dc06c8c345b7e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:03 +0000
Subject: [PATCH 010/111] fix: scpp reports read errors

A failed read was treated as the end of the file, so a truncated
preprocessing result was written with exit status 0.
---
 scpp.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/scpp.c b/scpp.c
index bff8b44..85c3d78 100644
--- a/scpp.c
+++ b/scpp.c
@@ -96,17 +96,17 @@ int open(const char* filename, int flags, ...)
     return ax;
 }
 
-void close(int fd)
+int close(int fd)
 {
     int ax = 0x3e00;
-    DosCall(&ax, fd, 0, 0);
+    return DosCall(&ax, fd, 0, 0);
 }
 
 int read(int fd, char* buf, int count)
 {
     int ax = 0x3f00;
     if (DosCall(&ax, fd, count, buf))
-        return 0;
+        return -1;
     return ax;
 }
 
@@ -462,8 +462,10 @@ void ReadChar(void)
 
     CurFileBuf = CurFile->Buf;
     CurFile->BufSize = read(CurFile->FD, CurFile->Buf, sizeof(CurFile->Buf)-1);
-    if (CurFile->BufSize <= 0) {
-        CurFile->BufSize = 0;
+    if (CurFile->BufSize < 0) {
+        printf("Error reading %s\n", CurFile->Filename);
+        exit(1);
+    } else if (CurFile->BufSize == 0) {
         CurrentChar = 0;
     } else {
         CurrentChar = *CurFileBuf++;
-- 
2.43.0


From fa0447196ba8027ed8586493a481488b3efabf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:07 +0000
Subject: [PATCH 011/111] fix: scpp reports failed or short writes of its
 output

The results of writing and closing were ignored: a full disk gave exit
status 0 and a truncated output file.
---
 scpp.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/scpp.c b/scpp.c
index 85c3d78..b49a7b3 100644
--- a/scpp.c
+++ b/scpp.c
@@ -451,7 +451,10 @@ void CloseFile(void)
     assert(NumFiles);
     --NumFiles;
     if (Debug) printf("Closing %s\n", Files[NumFiles].Filename);
-    close(Files[NumFiles].FD);
+    if (close(Files[NumFiles].FD)) {
+        printf("Error closing %s\n", Files[NumFiles].Filename);
+        exit(1);
+    }
 }
 
 void ReadChar(void)
@@ -1468,6 +1471,14 @@ void HandleDirective(void)
     }
 }
 
+void WriteOutput(int Size)
+{
+    if (write(OutFile->FD, OutFile->Buf, Size) != Size) {
+        printf("Error writing %s\n", OutFile->Filename);
+        exit(1);
+    }
+}
+
 void OutputStr(const char* Str)
 {
     char* Buf = OutFile->BufPtr;
@@ -1475,7 +1486,7 @@ void OutputStr(const char* Str)
     while ((*Buf = *Str++)) {
         if (++Buf != End)
             continue;
-        write(OutFile->FD, OutFile->Buf, sizeof(OutFile->Buf));
+        WriteOutput(sizeof(OutFile->Buf));
         Buf = OutFile->Buf;
     }
     OutFile->BufPtr = Buf;
@@ -1619,7 +1630,7 @@ int main(int argc, char** argv)
 
     PPMain();
 
-    write(OutFile->FD, OutFile->Buf, OutFile->BufPtr - OutFile->Buf);
+    WriteOutput((int)(OutFile->BufPtr - OutFile->Buf));
     CloseFile();
     assert(NumFiles == 0);
 
-- 
2.43.0


From fd6d751dc2d49fc43795862c666de547440c58fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 012/111] fix: sas reports read errors on the input file

A failed read left a negative buffer size, so sas went on with the old
buffer content (or, in the DOS build, a truncated input).
---
 sas.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index 450f35f..846c54c 100644
--- a/sas.c
+++ b/sas.c
@@ -102,7 +102,7 @@ int read(int fd, char* buf, int count)
     int ax;
     ax = 0x3f00;
     if (DosCall(&ax, fd, count, buf))
-        return 0;
+        return -1;
     return ax;
 }
 
@@ -547,6 +547,8 @@ void ReadChar(void)
     if (InBufCnt == InBufSize) {
         InBufCnt = 0;
         InBufSize = read(InFile, InBuf, INBUF_MAX);
+        if (InBufSize < 0)
+            Fatal("Error reading input file");
         if (!InBufSize) {
             CurrentChar = 0;
             return;
-- 
2.43.0


From f5769cab00416c010550703ac475b9855328ec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:29 +0000
Subject: [PATCH 013/111] fix: sas reports failed or short writes of its output

The results of writing and closing were ignored: a full disk gave exit
status 0 and a truncated program.
---
 sas.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sas.c b/sas.c
index 846c54c..7583930 100644
--- a/sas.c
+++ b/sas.c
@@ -90,11 +90,11 @@ int open(const char* filename, int flags, ...)
     return ax;
 }
 
-void close(int fd)
+int close(int fd)
 {
     int ax;
     ax = 0x3e00;
-    DosCall(&ax, fd, 0, 0);
+    return DosCall(&ax, fd, 0, 0);
 }
 
 int read(int fd, char* buf, int count)
@@ -1690,6 +1690,11 @@ int main(int argc, char** argv)
     if (OutFile < 0) {
         Fatal("Error creating output file");
     }
-    write(OutFile, OutputBuf, OutputBufPos);
-    close(OutFile);
+    if (write(OutFile, OutputBuf, OutputBufPos) != OutputBufPos) {
+        Fatal("Error writing output file");
+    }
+    if (close(OutFile)) {
+        Fatal("Error closing output file");
+    }
+    return 0;
 }
-- 
2.43.0


From 2da4211ab4e57beb008a112647739a0133c426dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:00 +0000
Subject: [PATCH 014/111] fix: sas doesn't overflow its buffers on long string
 literals

A string literal in an error message didn't fit the 80 byte message
buffers, and the terminator of a literal of maximum length was stored
behind StringBuf.
---
 sas.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sas.c b/sas.c
index 7583930..152f4a6 100644
--- a/sas.c
+++ b/sas.c
@@ -219,7 +219,7 @@ void sprintf(char* str, const char* format, ...)
 
 void printf(const char* format, ...)
 {
-    char msg[80];
+    char msg[200]; // Room for a string literal
     va_list args;
     va_start(args, format);
     vsprintf(msg, format, args);
@@ -447,7 +447,7 @@ int SizeOverride;
 void Fatal(const char* format, ...)
 {
     printf("\nLine %d: Fatal error: ", Line);
-    char msg[80];
+    char msg[200]; // Room for a string literal
     va_list args;
     va_start(args, format);
     vsprintf(msg, format, args);
@@ -680,7 +680,7 @@ SkipSpaces:
         int Len = 0;
         ReadChar();
         while (CurrentChar != '\'') {
-            assert(Len < (int)sizeof(StringBuf));
+            assert(Len < (int)sizeof(StringBuf)-1);
             if (!CurrentChar) Fatal("Unexpected EOF in string literal");
             StringBuf[Len++] = CurrentChar;
             ReadChar();
-- 
2.43.0


From f9a2032b4d52175a21c87b329349727dbcb7b7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:08 +0000
Subject: [PATCH 015/111] fix: sim86 keeps the operand size after a segment
 prefix

---
 sim86.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim86.c b/sim86.c
index 48ad83b..9c44c80 100644
--- a/sim86.c
+++ b/sim86.c
@@ -831,6 +831,7 @@ int main(int argc, char** argv)
                 } else {
                     assert(!(inst&1));
                     seg = (inst-0x26)>>3;
+                    dsize = 1;
                     goto Restart;
                 }
             } else {
-- 
2.43.0


From 90b56475c8d28949925258f653f8f5993efd5ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:12 +0000
Subject: [PATCH 016/111] fix: sim86 computes with 16-bit register values,
 signed where the instruction is

---
 sim86.c | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/sim86.c b/sim86.c
index 9c44c80..7342750 100644
--- a/sim86.c
+++ b/sim86.c
@@ -93,8 +93,10 @@ struct Stack max_stack;
 
 #ifdef __SCC__
 #define TRIM(x) x
+#define SIGNED(x) (int)x
 #else
 #define TRIM(x) ((x)&0xffff)
+#define SIGNED(x) ((short)(x))
 #define MAKEADDR(sr, off) ((TRIM(sreg[sr])*16+TRIM(off))&0xfffff)
 #endif
 
@@ -277,7 +279,7 @@ void ModRM(void)
 int ReadReg(int r)
 {
     if (dsize)
-        return reg[r];
+        return TRIM(reg[r]);
     return reg[r&3] >> ((r&4)<<1);
 }
 
@@ -951,7 +953,7 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REP MOVSB");
-                    while (reg[R_CX]) {
+                    while (TRIM(reg[R_CX])) {
                         Write8(SR_ES, reg[R_DI], Read8(SR_DS, reg[R_SI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
@@ -963,7 +965,7 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REP MOVSW");
-                    while (reg[R_CX]) {
+                    while (TRIM(reg[R_CX])) {
                         Write16(SR_ES, reg[R_DI], Read16(SR_DS, reg[R_SI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 2;
@@ -976,7 +978,7 @@ int main(int argc, char** argv)
                     assert(rep == 0xF3);
                     if (verbose) sprintf(insttext, "REPE CMPSB");
                     flags = FZ;
-                    while ((flags & FZ) && reg[R_CX]) {
+                    while ((flags & FZ) && TRIM(reg[R_CX])) {
                         DoOp(OP_CMP, Read8(SR_DS, reg[R_SI]), Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
@@ -989,7 +991,7 @@ int main(int argc, char** argv)
                     int iter = 1;
                     if (rep == 0xF3) {
                         if (verbose) sprintf(insttext, "REP STOSB");
-                        iter = reg[R_CX];
+                        iter = TRIM(reg[R_CX]);
                         reg[R_CX] -= iter;
                     } else {
                         if (verbose) sprintf(insttext, "STOSB");
@@ -1005,7 +1007,7 @@ int main(int argc, char** argv)
                     int iter = 1;
                     if (rep == 0xF3) {
                         if (verbose) sprintf(insttext, "REP STOSW");
-                        iter = reg[R_CX];
+                        iter = TRIM(reg[R_CX]);
                         reg[R_CX] -= iter;
                     } else {
                         if (verbose) sprintf(insttext, "STOSW");
@@ -1039,7 +1041,7 @@ int main(int argc, char** argv)
                     assert(rep == 0xF2);
                     if (verbose) strcpy(insttext, "REPNE SCASB");
                     flags = 0;
-                    while (!(flags & FZ) && reg[R_CX]) {
+                    while (!(flags & FZ) && TRIM(reg[R_CX])) {
                         DoOp(OP_CMP, (unsigned char)reg[R_AX], Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
@@ -1088,7 +1090,7 @@ int main(int argc, char** argv)
                         break;
                     case 7: // SAR R/M16, 1
                         if (verbose) sprintf(insttext, "SAR %s, 1", rmtext);
-                        res = (int)v>>1;
+                        res = SIGNED(v)>>1;
                         c = v&1;
                         break;
                     default:
@@ -1097,7 +1099,7 @@ int main(int argc, char** argv)
                     WriteRM(res);
                     flags = 0;
                     if (c) flags |= FC;
-                    if (!res) flags |= FZ;
+                    if (!TRIM(res)) flags |= FZ;
                 }
                 break;
             case 0xD3:
@@ -1119,7 +1121,7 @@ int main(int argc, char** argv)
                         break;
                     case 7: // SAR R/M16, CL
                         if (verbose) sprintf(insttext, "SAR %s, CL", rmtext);
-                        res = (int)v >> a;
+                        res = SIGNED(v) >> a;
                         if (a) c = (v >> (a-1)) & 1;
                         break;
                     default:
@@ -1128,7 +1130,7 @@ int main(int argc, char** argv)
                     WriteRM(res);
                     flags = 0;
                     if (c) flags |= FC;
-                    if (!res) flags |= FZ;
+                    if (!TRIM(res)) flags |= FZ;
                 }
                 break;
             case 0xE8:
@@ -1175,18 +1177,20 @@ int main(int argc, char** argv)
                         {
                             if (verbose) sprintf(insttext, "DIV %s", rmtext);
                             const unsigned int d = ReadRM();
-                            assert(reg[R_DX] == 0);
-                            reg[R_DX] = reg[R_AX] % d;
-                            reg[R_AX] /= d;
+                            assert(TRIM(reg[R_DX]) == 0);
+                            const unsigned int n = TRIM(reg[R_AX]);
+                            reg[R_DX] = n % d;
+                            reg[R_AX] = n / d;
                         }
                         break;
                     case 7: // IDIV (TODO: Full 32-bit divide)
                         {
                             if (verbose) sprintf(insttext, "IDIV %s", rmtext);
-                            const int d = ReadRM();
-                            assert(reg[R_DX] == (reg[R_AX] & 0x8000 ? -1 : 0));
-                            reg[R_DX] = reg[R_AX] % d;
-                            reg[R_AX] /= d;
+                            const int d = SIGNED(ReadRM());
+                            const int n = SIGNED(reg[R_AX]);
+                            assert(SIGNED(reg[R_DX]) == (n < 0 ? -1 : 0));
+                            reg[R_DX] = n % d;
+                            reg[R_AX] = n / d;
                         }
                         break;
                     default:
-- 
2.43.0


From a636ef9222424a8ea054bb4b178a2e7ead138ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:12 +0000
Subject: [PATCH 017/111] fix: sim86 sets the zero flag for byte operations
 with a carry out

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index 7342750..96d8be8 100644
--- a/sim86.c
+++ b/sim86.c
@@ -376,7 +376,7 @@ void DoOp(int op, unsigned l, unsigned r)
     flags = 0;
     if (res & mask)
         flags |= FS;
-    if (!TRIM(res))
+    if (!(res & (mask + mask - 1)))
         flags |= FZ;
     if (carry & mask)
         flags |= FC;
-- 
2.43.0


From 89fc2a0b8219adbe4dd91672120eefad62d4ebb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:19 +0000
Subject: [PATCH 018/111] fix: scc only relies on the zero flag where the last
 instruction set it

---
 scc.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index ce48a07..4c8e0f3 100644
--- a/scc.c
+++ b/scc.c
@@ -1143,6 +1143,7 @@ void EmitLocalLabel(int l)
     if (l >= LocalLabelCounter || Labels[l].Addr) Fail();
     FlushSpAdj();
     IsDeadCode = 0;
+    LastZFInst = 0;
     DoFixups(Labels[l].Ref, 1);
     Labels[l].Addr = CodeAddress;
     Labels[l].Ref = 0;
@@ -1274,6 +1275,8 @@ void EmitAddRegConst(int r, int Amm)
             Output2Bytes(I_ALU_RM16_IMM16, MODRM_REG|Op);
         OutputWord(Amm);
     }
+    if (!r && !IsDeadCode)
+        LastZFInst = CodeAddress;
 }
 
 void EmitMovRR(int d, int s)
@@ -2184,6 +2187,10 @@ int GetSimpleALU(int Op)
 
 void FinishOp(int Inst)
 {
+    // ZF only reflects AX after simple ALU operations (it's undefined after MUL and
+    // not necessarily changed by shifts)
+    if ((Inst & 0xff) < 0x40 && !IsDeadCode)
+        LastZFInst = CodeAddress;
     if (Inst >>= 8) {
         CurrentType = VT_BOOL;
         CurrentVal  = Inst;
@@ -2560,7 +2567,6 @@ void ParseExpr1(int OuterPrecedence)
                 } else {
                     DoBinOp(Op, R_CX);
                 }
-                LastZFInst = CodeAddress;
             } else if (CurrentType == (VT_INT|VT_LOCLIT)) {
                 // Constant assignment
                 if (!LhsLoc) {
@@ -2642,7 +2648,6 @@ BinOpOut:
             EmitDivAxConst(LhsPointeeSize);
             CurrentType = VT_INT;
         }
-        LastZFInst = CodeAddress;
     } while (OperatorPrecedence <= OuterPrecedence);
 }
 
-- 
2.43.0


From 0f7aff8f24e9ceb8d1136fe4191d71779a7e9cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:25 +0000
Subject: [PATCH 019/111] fix: sim86 sets the flags for INC, DEC, NEG and
 shifts

---
 sim86.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/sim86.c b/sim86.c
index 96d8be8..5d4c1ae 100644
--- a/sim86.c
+++ b/sim86.c
@@ -528,23 +528,24 @@ void JCC(int cc)
         ip += rel;
 }
 
-// TODO: INC/DEC shouldn't modify carry(?)
-void DoIncDec(int v)
+// INC/DEC don't modify carry
+void DoIncDec(int op)
 {
-    const int s = ReadRM();
-    WriteRM(s+v);
+    const int c = flags & FC;
+    DoOp(op, ReadRM(), 1);
+    flags = (flags & ~FC) | c;
 }
 
 void INC(void)
 {
     if (verbose) sprintf(insttext, "INC %s", rmtext);
-    DoIncDec(1);
+    DoIncDec(OP_ADD);
 }
 
 void DEC(void)
 {
     if (verbose) sprintf(insttext, "DEC %s", rmtext);
-    DoIncDec(-1);
+    DoIncDec(OP_SUB);
 }
 
 // Returns non-zero if the string (including the terminator) fits in size bytes
@@ -1100,6 +1101,7 @@ int main(int argc, char** argv)
                     flags = 0;
                     if (c) flags |= FC;
                     if (!TRIM(res)) flags |= FZ;
+                    if (res & 0x8000) flags |= FS;
                 }
                 break;
             case 0xD3:
@@ -1131,6 +1133,7 @@ int main(int argc, char** argv)
                     flags = 0;
                     if (c) flags |= FC;
                     if (!TRIM(res)) flags |= FZ;
+                    if (res & 0x8000) flags |= FS;
                 }
                 break;
             case 0xE8:
@@ -1154,7 +1157,7 @@ int main(int argc, char** argv)
             case 0xF7:
                 {
                     ModRM();
-                    // TODO: Flags
+                    // TODO: Flags (MUL/DIV)
                     switch (modrm>>3&7) {
                     case 2: // NOT r/m16
                         if (verbose) sprintf(insttext, "NOT %s", rmtext);
@@ -1162,7 +1165,7 @@ int main(int argc, char** argv)
                         break;
                     case 3: // NEG r/m16
                         if (verbose) sprintf(insttext, "NEG %s", rmtext);
-                        WriteRM(-ReadRM());
+                        DoOp(OP_SUB, 0, ReadRM());
                         break;
                     case 4: // MUL (TODO: Full 32-bit result)
                     case 5: // IMUL (TODO: Full 32-bit result)
-- 
2.43.0


From a39defe82f88a7842f7ccbd60ac9e0b44b7a5d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:08 +0000
Subject: [PATCH 020/111] fix: scc handles comparisons as operands of the
 conditional operator

---
 scc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scc.c b/scc.c
index 4c8e0f3..e5949e0 100644
--- a/scc.c
+++ b/scc.c
@@ -2335,6 +2335,9 @@ void ForceToReg(void)
     // Always decay arrays
     if ((CurrentType & VT_BASEMASK) == VT_ARRAY)
         LvalToRval();
+    // The other branch doesn't leave its result in the same flags
+    if (CurrentType == VT_BOOL)
+        GetVal();
 
     const int Loc = CurrentType & VT_LOCMASK;
     if (!Loc) return;
-- 
2.43.0


From 851943d77afc226fba31d525e1e3bd26c3b06d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:25 +0000
Subject: [PATCH 021/111] fix: scc keeps the stack balanced when only one path
 of a conditional expression saves BX

---
 scc.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index e5949e0..da6fc49 100644
--- a/scc.c
+++ b/scc.c
@@ -1418,6 +1418,17 @@ void FlushPushAx(void)
     }
 }
 
+// Save BX before code that may only be executed conditionally. That code could
+// need the register, but all paths must agree on where the value was saved.
+void SpillRegUse(void)
+{
+    if (RegUse && !IsDeadCode) {
+        Output1Byte(I_PUSH|R_BX);
+        LocalOffset -= 2;
+        RegUse = 0;
+    }
+}
+
 int EmitChecks(void)
 {
     if (IsDeadCode)
@@ -2381,7 +2392,10 @@ void HandleCondOp(void)
 
     const int FalseLabel = MakeLabel();
     const int EndLabel = MakeLabel();
-    DoCondHasExpr(FalseLabel, 1);
+    if (CurrentType != VT_BOOL)
+        ToBool();
+    SpillRegUse();
+    EmitJcc(CurrentVal^1, FalseLabel);
     ParseAssignmentExpression();
     ForceToReg();
     const int LhsType = CurrentType;
@@ -2461,6 +2475,7 @@ void ParseExpr1(int OuterPrecedence)
             LEnd = MakeLabel();
             if (CurrentType != VT_BOOL)
                 ToBool();
+            SpillRegUse();
             EmitJcc(CurrentVal ^ !Temp, LEnd);
         } else {
             LEnd = -1;
-- 
2.43.0


From 73e4f050e52fdaafa1f71810aaa28364cbdfca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:20 +0000
Subject: [PATCH 022/111] fix: scc doesn't lose track of saved values in
 expressions it generates no code for

---
 scc.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/scc.c b/scc.c
index da6fc49..faf709d 100644
--- a/scc.c
+++ b/scc.c
@@ -1800,6 +1800,8 @@ void ParseAssignmentExpression(void);
 
 int GetStoredVal(int Reg)
 {
+    if (IsDeadCode)
+        return Reg < 0 ? R_CX : Reg;
     if (Pending&PENDING_PUSHAX) Fail();
     if (RegUse) {
         RegUse = 0;
@@ -1861,11 +1863,7 @@ void ParsePostfixExpression(void)
                     Output1Byte(I_PUSH|R_AX);
                     LocalOffset -= 2;
                 }
-                if (RegUse) {
-                    Output1Byte(I_PUSH|R_BX);
-                    LocalOffset -= 2;
-                    RegUse = 0;
-                }
+                SpillRegUse();
 
                 int ArgSize = 0;
                 enum { ArgChunkSize = 8 }; // Must be power of 2
@@ -2108,7 +2106,10 @@ void ParseUnaryExpression(void)
     case TOK_SIZEOF:
         {
             GetToken();
-            const int WasDead = IsDeadCode;
+            const int WasDead  = IsDeadCode;
+            const int OldPend  = Pending;
+            const int OldLocal = LocalOffset;
+            Pending    = 0;
             IsDeadCode = 1;
             if (TokenType == '(') {
                 GetToken();
@@ -2123,7 +2124,9 @@ void ParseUnaryExpression(void)
                 ParseUnaryExpression();
             }
             if (!IsDeadCode) Fail();
-            IsDeadCode = WasDead;
+            IsDeadCode  = WasDead;
+            Pending     = OldPend;
+            LocalOffset = OldLocal;
             CurrentVal = SizeofCurrentType();
             CurrentType = VT_LOCLIT | VT_INT;
             return;
@@ -2369,10 +2372,15 @@ void ParseMaybeDead(int Live)
         const int OldVal   = CurrentVal;
         const int OldExtra = CurrentTypeExtra;
         const int WasDead  = IsDeadCode;
+        const int OldPend  = Pending;
+        const int OldLocal = LocalOffset;
+        Pending    = 0;
         IsDeadCode = 1;
         ParseAssignmentExpression();
         if (!IsDeadCode) Fail();
         IsDeadCode       = WasDead;
+        Pending          = OldPend;
+        LocalOffset      = OldLocal;
         CurrentType      = OldType;
         CurrentVal       = OldVal;
         CurrentTypeExtra = OldExtra;
-- 
2.43.0


From 4cf05ce1c665434a9c2122b22c2fc79c36274480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:30 +0000
Subject: [PATCH 023/111] fix: scc calls through a function pointer inside an
 expression

---
 scc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scc.c b/scc.c
index faf709d..befcb19 100644
--- a/scc.c
+++ b/scc.c
@@ -1847,6 +1847,9 @@ void ParsePostfixExpression(void)
                     Output1Byte(I_XCHG_AX|R_SI);
                     // Fall through
                 default:
+                    // The function pointer must be on top of saved values
+                    FlushPushAx();
+                    SpillRegUse();
                     EmitLoadAx(2, CurrentType & VT_LOCMASK, CurrentVal);
                     Output1Byte(I_PUSH|R_AX); // TODO: Could possibly optimize as PENDING_PUSHAX
                     LocalOffset -= 2;
-- 
2.43.0


From ff851df0d998ea26c387d5fc25711ab1c34dcd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:51 +0000
Subject: [PATCH 024/111] fix: scc evaluates constant operands of && and ||

---
 scc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scc.c b/scc.c
index befcb19..81fd590 100644
--- a/scc.c
+++ b/scc.c
@@ -2020,6 +2020,8 @@ void ParseCastExpression(void);
 void ToBool(void)
 {
     LvalToRval();
+    if (CurrentType == (VT_INT|VT_LOCLIT))
+        GetVal();
     if (CodeAddress != LastZFInst)
         Output2Bytes(I_AND|1, MODRM_REG); // AND AX, AX
     CurrentType = VT_BOOL;
-- 
2.43.0


From ddb22dde1f1334433fed8c3efea6ed2360769e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:24 +0000
Subject: [PATCH 025/111] fix: scc multiplies by a constant zero

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 81fd590..553c42e 100644
--- a/scc.c
+++ b/scc.c
@@ -1291,7 +1291,7 @@ void EmitMovRImm(int r, int val)
 
 void EmitScaleAx(int Scale)
 {
-    if (Scale & (Scale-1)) {
+    if (!Scale || Scale & (Scale-1)) {
         EmitMovRImm(R_CX, Scale);
         Output2Bytes(0xF7, MODRM_REG|(4<<3)|R_CX); // MUL CX
     } else {
-- 
2.43.0


From b5e845fbecb01b6711943bd5ff64f2170baaf8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:41 +0000
Subject: [PATCH 026/111] fix: scc rounds signed division by a power of two
 towards zero

---
 scc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scc.c b/scc.c
index 553c42e..7ecb42b 100644
--- a/scc.c
+++ b/scc.c
@@ -1313,13 +1313,13 @@ void EmitDivCX(void)
 
 void EmitDivAxConst(int Amm)
 {
-    if (Amm & (Amm-1)) {
+    if (!IsUnsignedOp || Amm & (Amm-1)) {
+        // Note: SAR rounds negative values in the wrong direction
         EmitMovRImm(R_CX, Amm);
         EmitDivCX();
     } else {
-        const int ModRM = IsUnsignedOp ? MODRM_REG|SHROT_SHR<<3 : MODRM_REG|SHROT_SAR<<3;
         while (Amm /= 2) {
-            Output2Bytes(0xD1, ModRM);
+            Output2Bytes(0xD1, MODRM_REG|SHROT_SHR<<3);
         }
     }
 }
-- 
2.43.0


From 961fdde96176ed64f879663176c4622581e41703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:53 +0000
Subject: [PATCH 027/111] fix: sim86 built for DOS prints characters unchanged

---
 sim86.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sim86.c b/sim86.c
index 5d4c1ae..803bef8 100644
--- a/sim86.c
+++ b/sim86.c
@@ -676,7 +676,11 @@ void INT(void)
         if (verbose)
             printf("\nOutput: 0x%02X (%c)", c, c >= ' ' ? c : '.');
         else
+#ifdef __SCC__
+            raw_putchar(c); // No newline translation
+#else
             putchar(c);
+#endif
     } else if (func == 0x3C) {
         HandleOpen(O_WRONLY | O_CREAT | O_TRUNC);
     } else if (func == 0x3D) {
-- 
2.43.0


From 22b40c9d6bb0ef071a0b3d5ec952d62697a6c6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:51 +0000
Subject: [PATCH 028/111] fix: scc types results of mixed signed and unsigned
 operations as C does

---
 scc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 7ecb42b..94ec50a 100644
--- a/scc.c
+++ b/scc.c
@@ -2537,7 +2537,9 @@ void ParseExpr1(int OuterPrecedence)
             continue;
         }
 
-        IsUnsignedOp = LhsType == (VT_UNSIGNED|VT_INT) || (CurrentType&(VT_UNSIGNED|VT_PTRMASK|VT_BASEMASK)) == (VT_UNSIGNED|VT_INT);
+        IsUnsignedOp = LhsType == (VT_UNSIGNED|VT_INT);
+        if (Op != TOK_LSH && Op != TOK_RSH && (CurrentType&(VT_UNSIGNED|VT_PTRMASK|VT_BASEMASK)) == (VT_UNSIGNED|VT_INT))
+            IsUnsignedOp = 1;
 
         if (Prec == PREC_ASSIGN) {
             HandleLhsLvalLoc(LhsLoc);
@@ -2678,6 +2680,8 @@ BinOpOut:
         if (Op == '-' && LhsPointeeSize) {
             EmitDivAxConst(LhsPointeeSize);
             CurrentType = VT_INT;
+        } else if ((CurrentType&~VT_UNSIGNED) == VT_INT && !LhsPointeeSize) {
+            CurrentType = IsUnsignedOp ? VT_INT|VT_UNSIGNED : VT_INT;
         }
     } while (OperatorPrecedence <= OuterPrecedence);
 }
-- 
2.43.0


From 982eca5a8172bc027b425f2742eb95ca542e6872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:46 +0000
Subject: [PATCH 029/111] fix: scc gives an assignment expression the type and
 value of its left operand

---
 scc.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 94ec50a..4f222cf 100644
--- a/scc.c
+++ b/scc.c
@@ -2605,14 +2605,31 @@ void ParseExpr1(int OuterPrecedence)
                 if (!LhsLoc) {
                     GetVal();
                     Output1Byte(I_STOSB-1+Size);
+                    goto Assigned;
                 } else {
                     EmitStoreConst(Size, LhsLoc, LhsVal);
+                    if (LhsType == VT_INT)
+                        continue;
+                    goto AssignedToLoc;
                 }
-                continue;
             } else {
                 GetVal();
             }
             EmitStoreAx(Size, LhsLoc, LhsVal);
+Assigned:
+            // The result is the value of the left operand
+            CurrentType = LhsType;
+            if (Size == 1) {
+                if (!LhsLoc) {
+                    EmitExtend(LhsType&VT_UNSIGNED);
+                    CurrentType = VT_INT;
+                    continue;
+                }
+AssignedToLoc:
+                CurrentType = LhsType | LhsLoc | VT_LVAL;
+                CurrentVal = LhsVal;
+            }
+            CurrentTypeExtra = LhsTypeExtra;
             continue;
         }
         int LhsPointeeSize = 0;
-- 
2.43.0


From 0bc623e211ed88c0f44130801d2240709ca95064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:02 +0000
Subject: [PATCH 030/111] fix: lib.h doesn't overwrite arguments with the argv
 array

---
 lib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib.h b/lib.h
index 9b969bb..69e5be5 100644
--- a/lib.h
+++ b/lib.h
@@ -120,7 +120,7 @@ int write(int fd, const char* buf, int count)
     return ax;
 }
 
-enum { _ARGV = 0x5C }; // Overwrite unopened FCBs
+char* _ARGV[66]; // The command tail holds at most 64 arguments
 
 int ParseArgs()
 {
-- 
2.43.0


From 59fc1e315771678a59182451fc13cc4a9fa6a61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 031/111] fix: sas emits the right prefix bytes for CS, SS and
 DS overrides

---
 sas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index 152f4a6..65ab418 100644
--- a/sas.c
+++ b/sas.c
@@ -899,7 +899,7 @@ DoMem:
         for (;;) {
             if (TokenType >= TOK_ES && TokenType <= TOK_DS) {
                 // Segment override
-                OutputByte(0x26 | (TokenType-TOK_ES));
+                OutputByte(0x26 | (TokenType-TOK_ES)<<3);
                 GetToken();
                 Expect(TOK_COLON);
                 continue;
-- 
2.43.0


From a89a2aa466d6e68ab653372b5ceca35ff743b9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 032/111] fix: swar's random numbers don't get stuck for
 negative clock values

---
 swar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swar.c b/swar.c
index b525f47..a40de08 100644
--- a/swar.c
+++ b/swar.c
@@ -344,7 +344,7 @@ int Seed = 43;
 int Rand(void)
 {
     int b = Seed & 1;
-    Seed >>= 1;
+    Seed = Seed>>1 & 0x7fff;
     if (b) Seed ^= 0xb40;
     return Seed & 0x7fff;
 }
-- 
2.43.0


From eb2a0cb5adc2a3074ceda00a11b267c8e3648ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 033/111] fix: swar's windowed build doesn't overwrite queued
 keys

---
 swar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swar.c b/swar.c
index a40de08..78e99c3 100644
--- a/swar.c
+++ b/swar.c
@@ -204,7 +204,7 @@ static LRESULT CALLBACK WindowProc(HWND hwnd, UINT umsg, WPARAM wparam, LPARAM l
             // Hack to roughly match BIOS output
             if (!isdigit(wparam) && (wparam < 'A' || wparam > 'Z') && wparam != 0x0D && wparam != 0x1B && wparam != ' ')
                 wparam = 0;
-            if (KBTail - KBHead < sizeof(KeyboardBuffer)) {
+            if (KBTail - KBHead < KBBUF_SIZE) {
                 KeyboardBuffer[KBTail++ % KBBUF_SIZE] = (wparam&0xff)|((lparam>>8)&0xff00);
             }
         }
-- 
2.43.0


From 19a4d4141c890de1aebb6877c49ee1ea2b42ff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 034/111] fix: swar's windowed build paces frames when the tick
 count is 0

---
 swar.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swar.c b/swar.c
index 78e99c3..e746a40 100644
--- a/swar.c
+++ b/swar.c
@@ -152,7 +152,7 @@ static void ScreenUpdate(void)
     }
 
     const DWORD CurTime = GetTickCount();
-    if (LastFrame && CurTime - LastFrame < 20) {
+    if (CurTime - LastFrame < 20) {
         Sleep(LastFrame+20-CurTime);
     }
 
@@ -266,6 +266,7 @@ static int Init(void)
         printf("Error creating window: %d\n", (int)GetLastError());
         return 0;
     }
+    LastFrame = GetTickCount() - 20; // Show the first frame at once
     return 1;
 }
 
-- 
2.43.0


From 869efe5f7dd1b18f7098b41ceb233a893b4718fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 035/111] fix: convert the result of functions returning char

The returned expression isn't converted to the function's type, so a
caller could see values that don't fit a char.
---
 scc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scc.c b/scc.c
index 4f222cf..7275056 100644
--- a/scc.c
+++ b/scc.c
@@ -1912,6 +1912,7 @@ void ParsePostfixExpression(void)
                 LocalOffset  += ArgSize;
                 CurrentType = RetType;
                 if ((CurrentType&~VT_UNSIGNED) == VT_CHAR) {
+                    EmitExtend(CurrentType&VT_UNSIGNED); // The function needn't have converted it
                     CurrentType = VT_INT;
                 }
                 CurrentTypeExtra = RetExtra;
-- 
2.43.0


From 3b16dbb37747f75d1b79a0af21109a8b6ea2b070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 036/111] fix: don't look at stale output when fusing jumps

When the fixup is for the current address there is no next instruction
yet and c[2] is whatever an earlier (discarded or string) output left
there: a leftover POP BP or JMP byte was copied into the code.
---
 scc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 7275056..490f86a 100644
--- a/scc.c
+++ b/scc.c
@@ -1085,9 +1085,9 @@ void DoFixups(int r, int relative)
                 if ((c[-3]&0xf0) != 0x70 || c[-2] != 3) Fail();
                 c[-3] ^= 1;
                 c[-2] = f+3;
-                // If the next instruction is a known jump / return, copy it in
+                // If the next instruction is a known jump / return, copy it in (if it's been output at all)
                 c[1]  = I_XCHG_AX;
-                switch (c[2]) {
+                switch (f ? c[2] : 0) {
                 case I_JMP_REL8:
                     if (((signed char *)c)[3] > 0x7f-3)
                         break;
-- 
2.43.0


From 1da1a653d48d31112fee8dde87965ecc68e42565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 037/111] fix: taking the address of a function not defined yet

The absolute reference was resolved as if it were the relative operand
of a call.
---
 scc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 490f86a..2676faf 100644
--- a/scc.c
+++ b/scc.c
@@ -1072,11 +1072,11 @@ void DoFixups(int r, int relative)
     while (r) {
         int o = 0;
         f = CodeAddress;
-        if (relative) {
+        c = &Output[r - CODESTART];
+        if (relative && (c[-1]&0xf8) != I_MOV_R_IMM16) { // The address of a function can also be loaded
             o = r + 2;
             f -= o;
         }
-        c = &Output[r - CODESTART];
         r = c[0]|c[1]<<8;
         if (!c[-1]) {
             // Fused Jcc/JMP
-- 
2.43.0


From 80e0d636fdd97758fd4baf3edaaf0f48b4df8f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 038/111] fix: scale the operand of += and -= on pointers

p += n advanced an int or struct pointer by n bytes, unlike p + n and ++p.
---
 scc.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scc.c b/scc.c
index 2676faf..7528c22 100644
--- a/scc.c
+++ b/scc.c
@@ -2567,6 +2567,15 @@ void ParseExpr1(int OuterPrecedence)
                 Size = 1;
             }
             if (Op != '=') {
+                if (LhsType & VT_PTRMASK) {
+                    Temp = SizeofType(LhsType-VT_PTR1, LhsTypeExtra);
+                    if (CurrentType == (VT_INT|VT_LOCLIT)) {
+                        CurrentVal *= Temp;
+                    } else {
+                        GetVal();
+                        EmitScaleAx(Temp);
+                    }
+                }
                 if (!LhsLoc)
                     EmitMovRR(R_SI, R_DI); // TODO: Can sometimes be avoided
                 Temp = CurrentType == (VT_INT|VT_LOCLIT);
-- 
2.43.0


From e1f0f26cbbe383a259b04aec12b17506316001a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 039/111] fix: unify the arms of ?: when only one is unsigned

The signedness of the last arm was used for both: a char could be
extended as an unsigned char (or the other way round) and the result
compared as signed though one arm is unsigned.
---
 scc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 7528c22..2a348f3 100644
--- a/scc.c
+++ b/scc.c
@@ -2422,14 +2422,17 @@ void HandleCondOp(void)
     // This is certainly the case if only one side is an lvalue
     // or if the types are "too different".
     int TypeDiff = LhsType ^ CurrentType;
-    if ((TypeDiff & VT_LVAL) || ((TypeDiff & VT_BASEMASK) && !(CurrentType & VT_PTRMASK))) {
+    if ((TypeDiff & VT_LVAL) || ((TypeDiff & (VT_BASEMASK|VT_UNSIGNED)) && !(CurrentType & VT_PTRMASK))) {
         const int RealEnd = MakeLabel();
         LvalToRval();
+        TypeDiff = CurrentType;
         EmitJmp(RealEnd);
         EmitLocalLabel(EndLabel);
         CurrentType = LhsType;
         LvalToRval();
         EmitLocalLabel(RealEnd);
+        if (CurrentType == VT_INT && TypeDiff == (VT_UNSIGNED|VT_INT))
+            CurrentType = TypeDiff; // The result is unsigned if either side is
     } else {
         EmitLocalLabel(EndLabel);
     }
-- 
2.43.0


From 4f296b05a586db5c190399f696d01b58f50505c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:19 +0000
Subject: [PATCH 040/111] fix: use global typedefs for initialized locals and
 parameters

The typedef's own location was combined with that of the variable.
---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 2a348f3..711e316 100644
--- a/scc.c
+++ b/scc.c
@@ -2876,7 +2876,7 @@ void ParseDeclSpecs(void)
             {
                 struct VarDecl* Typedef = LookupTypedef();
                 if (Typedef) {
-                    CurrentType      = Typedef->Type & ~VT_TYPEDEF;
+                    CurrentType      = Typedef->Type & ~(VT_TYPEDEF|VT_LOCMASK);
                     CurrentTypeExtra = Typedef->TypeExtra;
                     break;
                 }
-- 
2.43.0


From 40e960951b91bd60037a21f211e101df2860ae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:05 +0000
Subject: [PATCH 041/111] fix: reject initializers for local arrays and structs

They were accepted, but pushed AX in place of the whole variable.
---
 scc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scc.c b/scc.c
index 711e316..a50ab4b 100644
--- a/scc.c
+++ b/scc.c
@@ -3326,6 +3326,8 @@ Skip:
                 vd->Type |= VT_LOCOFF;
                 size = (size+1)&-2;
                 if (TokenType == '=') {
+                    if (!(vd->Type & VT_PTRMASK) && ((vd->Type & VT_BASEMASK) == VT_STRUCT || (vd->Type & VT_BASEMASK) == VT_ARRAY))
+                        Fatal("Invalid initializer");
                     GetToken();
                     ParseAssignmentExpression();
                     GetVal();
-- 
2.43.0


From d942ac027ed5d5417274f38d95b136859c725377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 042/111] fix: signed division for the difference of pointers

p - q was divided as unsigned, so negative differences of int and struct
pointers were wrong.
---
 scc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scc.c b/scc.c
index a50ab4b..c35a163 100644
--- a/scc.c
+++ b/scc.c
@@ -2708,6 +2708,7 @@ DoNormal:
         }
 BinOpOut:
         if (Op == '-' && LhsPointeeSize) {
+            IsUnsignedOp = 0; // The difference can be negative
             EmitDivAxConst(LhsPointeeSize);
             CurrentType = VT_INT;
         } else if ((CurrentType&~VT_UNSIGNED) == VT_INT && !LhsPointeeSize) {
-- 
2.43.0


From 011117a630b1fa33f44d1e46135cf7e7ea966f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:32 +0000
Subject: [PATCH 043/111] fix: labels in expressions don't bring dead code back
 to life

The end label of ||, && and ?: in dead code made the rest of the
expression live with an unbalanced stack (while (k--) if (0) x[i] = a || b;)
and failed a check when it was in the unused arm of a constant ?:.
---
 scc.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/scc.c b/scc.c
index c35a163..575f512 100644
--- a/scc.c
+++ b/scc.c
@@ -1149,6 +1149,13 @@ void EmitLocalLabel(int l)
     Labels[l].Ref = 0;
 }
 
+// Labels in expressions can't be reached from elsewhere, so dead code stays dead
+void EmitExprLabel(int l, int WasDead)
+{
+    EmitLocalLabel(l);
+    IsDeadCode = WasDead;
+}
+
 void WriteOutput(int fd, const void* buf, int count)
 {
     if (write(fd, buf, count) != count)
@@ -2406,6 +2413,7 @@ void HandleCondOp(void)
 
     const int FalseLabel = MakeLabel();
     const int EndLabel = MakeLabel();
+    const int WasDead = IsDeadCode;
     if (CurrentType != VT_BOOL)
         ToBool();
     SpillRegUse();
@@ -2415,7 +2423,7 @@ void HandleCondOp(void)
     const int LhsType = CurrentType;
     EmitJmp(EndLabel);
     Expect(':');
-    EmitLocalLabel(FalseLabel);
+    EmitExprLabel(FalseLabel, WasDead);
     ParseAssignmentExpression();
     ForceToReg();
     // Check if type unification is needed.
@@ -2427,14 +2435,14 @@ void HandleCondOp(void)
         LvalToRval();
         TypeDiff = CurrentType;
         EmitJmp(RealEnd);
-        EmitLocalLabel(EndLabel);
+        EmitExprLabel(EndLabel, WasDead);
         CurrentType = LhsType;
         LvalToRval();
-        EmitLocalLabel(RealEnd);
+        EmitExprLabel(RealEnd, WasDead);
         if (CurrentType == VT_INT && TypeDiff == (VT_UNSIGNED|VT_INT))
             CurrentType = TypeDiff; // The result is unsigned if either side is
     } else {
-        EmitLocalLabel(EndLabel);
+        EmitExprLabel(EndLabel, WasDead);
     }
 }
 
@@ -2466,6 +2474,7 @@ void ParseExpr1(int OuterPrecedence)
     int LhsTypeExtra;
     int LhsVal;
     int LhsLoc;
+    int WasDead;
     do {
         Op   = TokenType;
         Prec = OperatorPrecedence;
@@ -2488,6 +2497,7 @@ void ParseExpr1(int OuterPrecedence)
         }
 
         Temp = Op == TOK_OROR;
+        WasDead = IsDeadCode;
         if (Temp || Op == TOK_ANDAND) {
             LEnd = MakeLabel();
             if (CurrentType != VT_BOOL)
@@ -2532,11 +2542,11 @@ void ParseExpr1(int OuterPrecedence)
             if (LhsVal != CurrentVal) {
                 Output2Bytes(0xB0, !Temp);
                 Output2Bytes(0x70|(CurrentVal^Temp), 2);
-                EmitLocalLabel(LEnd);
+                EmitExprLabel(LEnd, WasDead);
                 Output3Bytes(0xB0, Temp, 0x98);
                 CurrentType = VT_INT;
             } else {
-                EmitLocalLabel(LEnd);
+                EmitExprLabel(LEnd, WasDead);
             }
             continue;
         }
-- 
2.43.0


From 00fc50dd46255a2a8a42db9ffc3e7e05ebbf02ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:43 +0000
Subject: [PATCH 044/111] fix: > in #if tested for less than

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index b49a7b3..b95d6e9 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1323,7 +1323,7 @@ int EvalExpr1(int LHS, int OuterPrec)
         case '+': LHS += RHS; break;
         case '-': LHS -= RHS; break;
         case '<': LHS = LHS < RHS; break;
-        case '>': LHS = LHS < RHS; break;
+        case '>': LHS = LHS > RHS; break;
         case TOK_LTEQ: LHS = LHS <= RHS; break;
         case TOK_GTEQ: LHS = LHS >= RHS; break;
         case TOK_EQEQ: LHS = LHS == RHS; break;
-- 
2.43.0


From d3d01c49df5baa3208635c4ecdddd9dc125dc9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:43 +0000
Subject: [PATCH 045/111] fix: operators of equal precedence in #if group to
 the left

10 - 3 - 2 was evaluated as 10 - (3 - 2).
---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index b95d6e9..9fe47fb 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1312,7 +1312,7 @@ int EvalExpr1(int LHS, int OuterPrec)
             if (LookAheadOp <= ' ' || LookAheadOp >= TOK_ID)
                 break;
             const int LookAheadPrec = OperatorPrecedence(LookAheadOp);
-            if (LookAheadPrec > Prec)
+            if (LookAheadPrec >= Prec)
                 break;
             RHS = EvalExpr1(RHS, LookAheadPrec);
         }
-- 
2.43.0


From 4d43a045259efd49ad499fba2ef86aeb40dd6afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:22 +0000
Subject: [PATCH 046/111] fix: comments separate tokens, # is only a directive
 at the start of a line

---
 scpp.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/scpp.c b/scpp.c
index 9fe47fb..2a7195d 100644
--- a/scpp.c
+++ b/scpp.c
@@ -654,7 +654,8 @@ Restart:
                 ReadChar();
             }
             ReadChar();
-            goto Restart;
+            CurTok.Type = TOK_WHITESPACE;
+            return;
         }
         CurTok.Type = '/';
         assert(TokenDataPos < TOKEN_DATA_MAX);
@@ -1530,22 +1531,24 @@ void PPMain(void)
             continue;
         }
 
-        if (!Active) {
-            GetToken();
-            continue;
-        }
-
         switch (CurTok.Type) {
         case TOK_WHITESPACE:
-            WS |= WS_NORMAL;
+            if (Active && !StartOfLine)
+                WS |= WS_NORMAL;
             GetToken();
             continue;
         case TOK_NEWLINE:
-            WS |= WS_NEWLINE;
+            if (Active)
+                WS |= WS_NEWLINE;
             StartOfLine = 1;
             GetToken();
             continue;
         }
+        StartOfLine = 0;
+        if (!Active) {
+            GetToken();
+            continue;
+        }
         if (WS) {
             if (WS & WS_NEWLINE) {
                 OutputStr("\r\n");
-- 
2.43.0


From 80fbbc71199fee1ddf81c2cecdc542f4a9811c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:47 +0000
Subject: [PATCH 047/111] fix: # keeps the quotes of literals

---
 scpp.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/scpp.c b/scpp.c
index 2a7195d..ce7b6eb 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1036,6 +1036,27 @@ void GetToken(void)
 
 char StrBuf[256]; // HACK HACK
 
+int StringifyLiteral(int StrPos)
+{
+    const char* Text = CurTok.Text;
+    const int IsStr = CurTok.Type == TOK_STRLIT;
+    assert(StrPos+4 < (int)sizeof(StrBuf));
+    if (IsStr)
+        StrBuf[StrPos++] = '\\';
+    StrBuf[StrPos++] = IsStr ? '"' : '\'';
+    while (*Text) {
+        assert(StrPos+4 < (int)sizeof(StrBuf));
+        if (*Text == '"' || *Text == '\\')
+            StrBuf[StrPos++] = '\\';
+        StrBuf[StrPos++] = *Text++;
+    }
+    assert(StrPos+2 < (int)sizeof(StrBuf));
+    if (IsStr)
+        StrBuf[StrPos++] = '\\';
+    StrBuf[StrPos++] = IsStr ? '"' : '\'';
+    return StrPos;
+}
+
 void Stringify(struct TokenList* TL)
 {
     int StrPos = 0;
@@ -1070,6 +1091,10 @@ void Stringify(struct TokenList* TL)
                 StrBuf[StrPos++] = ' ';
                 PendWS = 0;
             }
+            if (CurTok.Type == TOK_STRLIT || CurTok.Type == TOK_CHARLIT) {
+                StrPos = StringifyLiteral(StrPos);
+                continue;
+            }
             const int l = (int)strlen(CurTok.Text);
             assert(StrPos+l < (int)sizeof(StrBuf));
             memcpy(&StrBuf[StrPos], CurTok.Text, l);
-- 
2.43.0


From b81a1d073ad689609010942561fd93696b8d5e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:36 +0000
Subject: [PATCH 048/111] fix: don't evaluate #if in skipped groups

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index ce7b6eb..dbe38ed 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1471,7 +1471,7 @@ void HandleDirective(void)
 
         char* S = CondCount ? &CondState[CondCount-1] : 0;
         if (Directive == TOK_IF) {
-            NewCond(EvalExpr());
+            NewCond(CondActive() && EvalExpr());
         } else if (Directive == TOK_ELIF) {
             assert(S);
             if (*S == COND_TRUE)
-- 
2.43.0


From 7da977f92a76cbc172aacc1f5fc556534384675b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 049/111] fix: #undef forgets the macro's arguments and
 replacement

---
 scpp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scpp.c b/scpp.c
index dbe38ed..4814c24 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1445,6 +1445,8 @@ void HandleDirective(void)
                 // HACK: Just hide #undef'ed macros
                 Macros[CurTok.Type - TOK_USER_ID].Hide = 2;
                 FreeTokenList(Macros[CurTok.Type - TOK_USER_ID].Replacement);
+                Macros[CurTok.Type - TOK_USER_ID].Replacement = 0;
+                Macros[CurTok.Type - TOK_USER_ID].Arguments = 0;
             }
             GetToken();
         }
-- 
2.43.0


From 52dee9dcc17e51ea1f9d4a28df1cd566eb2ae1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:29 +0000
Subject: [PATCH 050/111] fix: pasting to an empty argument

---
 scpp.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index 4814c24..e0f6301 100644
--- a/scpp.c
+++ b/scpp.c
@@ -565,8 +565,19 @@ void PrintToken(const struct Token* T);
 
 void PasteAppend(struct Token* Tok)
 {
-    CurTok = *SimpleExpand(&CurTok);
+    struct Token* Left = SimpleExpand(&CurTok);
     Tok = SimpleExpand(Tok);
+    if (!Left || Left->Type == TOK_WHITESPACE) {
+        // Nothing to paste to
+        if (Tok) {
+            CurTok = *Tok;
+        } else {
+            CurTok.Type = TOK_WHITESPACE;
+            CurTok.Text = "";
+        }
+        return;
+    }
+    CurTok = *Left;
     if (Debug) { printf("Paste "); if(Tok)PrintToken(Tok); printf(" to "); PrintToken(&CurTok); printf("\n"); }
     const char* T2 = Tok ? Tok->Text : "";
     const int l1 = (int)strlen(CurTok.Text);
-- 
2.43.0


From b47e6ab2b253dcfb25f98389b1eba89ea1867d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:00 +0000
Subject: [PATCH 051/111] fix: allow whitespace before ) of defined

---
 scpp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index e0f6301..b3af8a0 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1283,7 +1283,10 @@ int EvalUnary(void)
         ReplaceId();
         n = IsDefined(CurTok.Type);
         GetToken();
-        if (Par) Expect(')');
+        if (Par) {
+            SkipWS();
+            Expect(')');
+        }
         return n;
     } else if (Accept('!')) {
         return !EvalUnary();
-- 
2.43.0


From 84d74185bf7b8d45b7cf766fdb958798c2046e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:53 +0000
Subject: [PATCH 052/111] fix: keep tokens from macros apart

---
 scpp.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/scpp.c b/scpp.c
index b3af8a0..2eba912 100644
--- a/scpp.c
+++ b/scpp.c
@@ -419,6 +419,7 @@ struct ReplaceStackElem {
     int Stop;
 } ReplaceStack[MAX_NEST];
 int ReplaceNest;
+int Seam; // Tokens after this point come from somewhere else than those before
 
 enum {
     COND_TRUE,        // In active block
@@ -623,6 +624,7 @@ void RawGetToken(void)
             FreeArgs(RS->M->Arguments);
         }
         --ReplaceNest;
+        Seam = 1;
         if (Debug) printf("Popped replacement list (Stop=%d)\n", RS->Stop);
         if (RS->Stop) {
             CurTok.Type = TOK_EOF;
@@ -895,6 +897,7 @@ void PushHandleArg(struct Argument* A)
     ReplaceStack[ReplaceNest].TL = A->Replacement;
     ReplaceStack[ReplaceNest].Stop = 0;
     ++ReplaceNest;
+    Seam = 1;
 }
 
 struct Argument* GetArg(int Id)
@@ -1032,6 +1035,7 @@ void GetToken(void)
             }
         }
         if (Debug) printf("Start expanding macro body of %s\n", IdText[Id-TOK_ID]);
+        Seam = 1;
         if (M->Replacement) {
             assert(ReplaceNest < MAX_NEST);
             ReplaceStack[ReplaceNest].M  = M;
@@ -1534,8 +1538,25 @@ void OutputStr(const char* Str)
     OutFile->BufPtr = Buf;
 }
 
+// Would the two characters (the last and first of tokens) run together?
+int RunsTogether(int L, int R)
+{
+    if (IsIdChar[L>>3]>>(L&7) & 1)
+        return IsIdChar[R>>3]>>(R&7) & 1;
+    switch (L) {
+    case '+': case '-': case '&': case '|': case '<': case '>': case '=':
+        return R == L || R == '=' || R == '>';
+    case '!': case '*': case '%': case '^':
+        return R == '=';
+    case '/':
+        return R == '=' || R == '*' || R == '/';
+    }
+    return 0;
+}
+
 void PPMain(void)
 {
+    int LastCh = 0;
     ReadChar();
     GetToken();
 
@@ -1597,7 +1618,11 @@ void PPMain(void)
                 OutputStr(" ");
             }
             WS = 0;
+        } else if (Seam && CurTok.Type != TOK_STRLIT && CurTok.Type != TOK_CHARLIT && RunsTogether(LastCh, *CurTok.Text & 0x7f)) {
+            OutputStr(" ");
         }
+        Seam = 0;
+        LastCh = 0;
         switch (CurTok.Type) {
         case TOK_STRLIT:
         case TOK_CHARLIT:
@@ -1610,6 +1635,8 @@ void PPMain(void)
             break;
         default:
             OutputStr(CurTok.Text);
+            if (*CurTok.Text)
+                LastCh = CurTok.Text[strlen(CurTok.Text)-1] & 0x7f;
         }
         GetToken();
     }
-- 
2.43.0


From 26be18688ecf170863860cc1378d1c00ca7db561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:13 +0000
Subject: [PATCH 053/111] fix: #define on the last line of a file without a
 newline

---
 scpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index 2eba912..8b1a3ce 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1182,7 +1182,7 @@ void HandleDefine(void)
     RawSkipWS();
     struct TokenList** Last = &M->Replacement;
     int PendWS = -1;
-    for (; CurTok.Type != TOK_NEWLINE; RawGetToken()) {
+    for (; CurTok.Type && CurTok.Type != TOK_NEWLINE; RawGetToken()) {
         if (CurTok.Type == TOK_WHITESPACE) {
             if (PendWS == 0) PendWS = 1;
             continue;
-- 
2.43.0


From 4a2ae755776e988999188761c5d1385974fd7906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:43 +0000
Subject: [PATCH 054/111] fix: line numbers in files included before an empty
 line

---
 scpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scpp.c b/scpp.c
index 8b1a3ce..375135d 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1435,6 +1435,7 @@ void HandleInclude(void)
     CurFile->OldLine = Line;
     CurFileBuf = CurFile->Buf;
     Line = 1;
+    CurrentChar = 0;
     ReadChar();
 }
 
-- 
2.43.0


From 18b271067a9362b425706866f72601b2b53b4135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 055/111] fix: the end of an included file ends its last line

---
 scpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scpp.c b/scpp.c
index 375135d..b0c62a4 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1590,6 +1590,7 @@ void PPMain(void)
             CurrentChar = CurFile->LastChar;
             CurFileBuf  = CurFile->BufPtr;
             StartOfLine = 1;
+            WS |= WS_NEWLINE;
             GetToken();
             continue;
         }
-- 
2.43.0


From 3af3f0b70ed18d2747b77feacd1bbdab290634cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:53 +0000
Subject: [PATCH 056/111] fix: # at the end of a file

---
 scpp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scpp.c b/scpp.c
index b0c62a4..05ed94e 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1442,6 +1442,8 @@ void HandleInclude(void)
 void HandleDirective(void)
 {
     RawSkipWS();
+    if (CurTok.Type == TOK_EOF)
+        CurTok.Type = TOK_NEWLINE;
     if (CurTok.Type == TOK_NEWLINE) {
         return;
     }
-- 
2.43.0


From 854e314645a781ff91104f6d4dcbf0261fe2be7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:41 +0000
Subject: [PATCH 057/111] fix: don't expand macros in skipped groups

---
 scpp.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/scpp.c b/scpp.c
index 05ed94e..b237423 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1557,6 +1557,15 @@ int RunsTogether(int L, int R)
     return 0;
 }
 
+// Macros aren't expanded in skipped groups
+void NextToken(int Active)
+{
+    if (Active)
+        GetToken();
+    else
+        RawGetToken();
+}
+
 void PPMain(void)
 {
     int LastCh = 0;
@@ -1577,9 +1586,9 @@ void PPMain(void)
             if (!CurTok.Type)
                 return;
             assert(CurTok.Type == TOK_NEWLINE);
-            GetToken();
             StartOfLine = 1;
             Active = CondActive();
+            NextToken(Active);
             continue;
         case 0:
             if (Debug) printf("Exiting '%s' (%d)\n", CurFile->Filename, NumFiles);
@@ -1593,7 +1602,7 @@ void PPMain(void)
             CurFileBuf  = CurFile->BufPtr;
             StartOfLine = 1;
             WS |= WS_NEWLINE;
-            GetToken();
+            NextToken(Active);
             continue;
         }
 
@@ -1601,18 +1610,18 @@ void PPMain(void)
         case TOK_WHITESPACE:
             if (Active && !StartOfLine)
                 WS |= WS_NORMAL;
-            GetToken();
+            NextToken(Active);
             continue;
         case TOK_NEWLINE:
             if (Active)
                 WS |= WS_NEWLINE;
             StartOfLine = 1;
-            GetToken();
+            NextToken(Active);
             continue;
         }
         StartOfLine = 0;
         if (!Active) {
-            GetToken();
+            RawGetToken();
             continue;
         }
         if (WS) {
-- 
2.43.0


From 9ad865fa351498a6ea1d883d9f50d4686e7ccb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 058/111] fix: the ( of a macro invocation can be on the next
 line

---
 scpp.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scpp.c b/scpp.c
index b237423..5a34b02 100644
--- a/scpp.c
+++ b/scpp.c
@@ -982,10 +982,14 @@ void GetToken(void)
         if (M->Arguments) {
             RawGetToken();
             int WS = CurTok.Type;
-            RawSkipWS();
+            while (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE) {
+                if (CurTok.Type == TOK_NEWLINE)
+                    WS = TOK_NEWLINE;
+                RawGetToken();
+            }
             if (CurTok.Type != '(') {
                 // Undo consumption of ID and any whitespace
-                if (WS < ' ') {
+                if (WS == TOK_WHITESPACE || WS == TOK_NEWLINE) {
                     struct Token WSToken;
                     WSToken.Type = WS;
                     TokenQueuePush(&WSToken);
-- 
2.43.0


From c1118ac642d9c3cf6acd4e224acbb354a862698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 059/111] fix: macros in the body of a macro with an empty
 parameter list

---
 scpp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scpp.c b/scpp.c
index 5a34b02..f570737 100644
--- a/scpp.c
+++ b/scpp.c
@@ -904,6 +904,8 @@ struct Argument* GetArg(int Id)
 {
     if (ReplaceNest && ReplaceStack[ReplaceNest-1].M) {
         struct Argument* A = ReplaceStack[ReplaceNest-1].M->Arguments;
+        if (A == (struct Argument*)1)
+            return 0;
         for (; A; A = A->Next) {
             if (A->Id == Id) {
                 if (Debug) {
@@ -1191,7 +1193,7 @@ void HandleDefine(void)
             if (PendWS == 0) PendWS = 1;
             continue;
         }
-        if (M->Arguments && CurTok.Type == TOK_RAW_ID) {
+        if (M->Arguments && M->Arguments != (struct Argument*)1 && CurTok.Type == TOK_RAW_ID) {
             ReplaceId();
             if (CurTok.Type >= TOK_USER_ID) {
                 struct Argument* A = M->Arguments;
-- 
2.43.0


From 5d6b6606b326a3c27616ad006ee734d046e44d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:35 +0000
Subject: [PATCH 060/111] fix: keep the whitespace after the operands of ##

---
 scpp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scpp.c b/scpp.c
index f570737..d06ca6d 100644
--- a/scpp.c
+++ b/scpp.c
@@ -611,8 +611,8 @@ void RawGetToken(void)
                 TL = SkipWsNL(TL->Next);
                 assert(TL);
                 PasteAppend(&TL->Tok);
-                TL = SkipWsNL(TL->Next);
-                RS->TL = TL;
+                RS->TL = TL->Next;
+                TL = SkipWsNL(RS->TL);
             }
 
             CurHash = ID_HASH_MAX;
-- 
2.43.0


From d8af2e890c8d71b9a1540240a0795ea609b53675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 061/111] fix: a macro name without arguments in a macro body
 doesn't reorder tokens

---
 scpp.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scpp.c b/scpp.c
index d06ca6d..aa46dfa 100644
--- a/scpp.c
+++ b/scpp.c
@@ -598,6 +598,12 @@ const char IsIdChar[] = "\x00\x00\x00\x00\x00\x00\xFF\x03\xFE\xFF\xFF\x87\xFE\xF
 
 void RawGetToken(void)
 {
+    if (TokenQueueHead != TokenQueueTail) {
+        CurTok = TokenQueue[TokenQueueHead++ % TOKEN_QUEUE_MAX];
+        CurHash = ID_HASH_MAX;
+        return;
+    }
+
     while (ReplaceNest) {
         struct ReplaceStackElem* RS = &ReplaceStack[ReplaceNest-1];
         assert(!RS->M || RS->M->Hide == 1);
@@ -632,12 +638,6 @@ void RawGetToken(void)
         }
     }
 
-    if (TokenQueueHead != TokenQueueTail) {
-        CurTok = TokenQueue[TokenQueueHead++ % TOKEN_QUEUE_MAX];
-        CurHash = ID_HASH_MAX;
-        return;
-    }
-
 Restart:
     TokenDataPos = NextTokenDataPos;
     CurTok.Text = TokenData + TokenDataPos;
-- 
2.43.0


From 40265a33ebdff5577163d8b766e1e557abc37091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 062/111] fix: __LINE__ in a macro followed by a macro with
 arguments

---
 scpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scpp.c b/scpp.c
index aa46dfa..8cf42d9 100644
--- a/scpp.c
+++ b/scpp.c
@@ -955,6 +955,7 @@ void GetToken(void)
                     char* T = &TokenData[NextTokenDataPos];
                     sprintf(T, "%d", Line);
                     NextTokenDataPos += (int)strlen(T) + 1;
+                    TokenDataPos = NextTokenDataPos;
                     CurTok.Text = T;
                     CurTok.Type = TOK_NUM;
                 } else if (CurTok.Type == TOK___FILE__) {
-- 
2.43.0


From 9a37986774ad0abb9a1e337d81d61161d0c677dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 063/111] fix: keep dots from macros apart

---
 scpp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scpp.c b/scpp.c
index 8cf42d9..aeffba2 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1560,6 +1560,8 @@ int RunsTogether(int L, int R)
         return R == '=';
     case '/':
         return R == '=' || R == '*' || R == '/';
+    case '.':
+        return R == '.';
     }
     return 0;
 }
-- 
2.43.0


From ef4b862a0e03035b79d754c6c2571c64a75422bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 064/111] fix: count the line ends directly after a token

---
 scc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scc.c b/scc.c
index 575f512..5186ee2 100644
--- a/scc.c
+++ b/scc.c
@@ -560,6 +560,8 @@ int SkipWhitespace(void)
 {
     for (;;) {
         if (CurChar <= ' ') {
+            if (CurChar == '\n')
+                ++Line;
             while ((CurChar = *InBufPtr++) <= ' ') {
                 switch (CurChar) {
                 case ' ':  continue;
-- 
2.43.0


From 0ae308ceb468d6e7ed1dd9ea96535cd04bf4f862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 065/111] fix: comparisons of two constants

---
 scc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scc.c b/scc.c
index 5186ee2..80e86f2 100644
--- a/scc.c
+++ b/scc.c
@@ -2319,6 +2319,12 @@ int DoConstBinOp(int Op, int L, int R)
     case '|':     return L | R;
     case TOK_LSH: return L << R;
     case TOK_RSH: return L >> R;
+    case '<':     return L < R;
+    case '>':     return L > R;
+    case TOK_LTEQ: return L <= R;
+    case TOK_GTEQ: return L >= R;
+    case TOK_EQEQ: return L == R;
+    case TOK_NOTEQ: return L != R;
     }
     Fail();
 }
-- 
2.43.0


From b7d10ae32b3d637874af925473db32fc529be5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 066/111] fix: error messages name the line of the token, not
 the next

---
 sas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index 65ab418..b28c04f 100644
--- a/sas.c
+++ b/sas.c
@@ -544,6 +544,7 @@ int LookupId(const char* Str)
 
 void ReadChar(void)
 {
+    if (CurrentChar == '\n') ++Line;
     if (InBufCnt == InBufSize) {
         InBufCnt = 0;
         InBufSize = read(InFile, InBuf, INBUF_MAX);
@@ -555,7 +556,6 @@ void ReadChar(void)
         }
     }
     CurrentChar = InBuf[InBufCnt++];
-    if (CurrentChar == '\n') ++Line;
 }
 
 int IsDigit(void)
-- 
2.43.0


From 11159a7f62a41af20f45c11687947af1cc1ad6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 067/111] fix: honour segment overrides of MOV A?,[ofs] and
 string instructions

---
 sim86.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sim86.c b/sim86.c
index 803bef8..5e7aa81 100644
--- a/sim86.c
+++ b/sim86.c
@@ -934,6 +934,7 @@ int main(int argc, char** argv)
                 {
                     int Off = ReadIByte();
                     Off |= ReadIByte()<<8;
+                    if (seg == -1) seg = SR_DS;
                     if (verbose) {
                         if (inst & 2) sprintf(insttext, "MOV [0x%04X], A%c", Off, inst&1?'X':'L');
                         else          sprintf(insttext, "MOV A%c, [0x%04X]", inst&1?'X':'L', Off);
@@ -941,15 +942,15 @@ int main(int argc, char** argv)
                     if (inst & 2) {
                         // Store
                         if (inst & 1) {
-                            Write16(SR_DS, Off, reg[R_AX]);
+                            Write16(seg, Off, reg[R_AX]);
                         } else {
-                            Write8(SR_DS, Off, reg[R_AX] & 0xff);
+                            Write8(seg, Off, reg[R_AX] & 0xff);
                         }
                     } else {
                         if (inst & 1) {
-                            reg[R_AX] = Read16(SR_DS, Off);
+                            reg[R_AX] = Read16(seg, Off);
                         } else {
-                            reg[R_AX] = (reg[R_AX]&0xff00) | Read8(SR_DS, Off);
+                            reg[R_AX] = (reg[R_AX]&0xff00) | Read8(seg, Off);
                         }
                     }
                 }
@@ -957,9 +958,10 @@ int main(int argc, char** argv)
             case 0xA4:
                 {
                     assert(rep == 0xF3);
+                    if (seg == -1) seg = SR_DS;
                     if (verbose) sprintf(insttext, "REP MOVSB");
                     while (TRIM(reg[R_CX])) {
-                        Write8(SR_ES, reg[R_DI], Read8(SR_DS, reg[R_SI]));
+                        Write8(SR_ES, reg[R_DI], Read8(seg, reg[R_SI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
                         reg[R_SI] += 1;
@@ -969,9 +971,10 @@ int main(int argc, char** argv)
             case 0xA5:
                 {
                     assert(rep == 0xF3);
+                    if (seg == -1) seg = SR_DS;
                     if (verbose) sprintf(insttext, "REP MOVSW");
                     while (TRIM(reg[R_CX])) {
-                        Write16(SR_ES, reg[R_DI], Read16(SR_DS, reg[R_SI]));
+                        Write16(SR_ES, reg[R_DI], Read16(seg, reg[R_SI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 2;
                         reg[R_SI] += 2;
@@ -981,10 +984,11 @@ int main(int argc, char** argv)
             case 0xA6:
                 {
                     assert(rep == 0xF3);
+                    if (seg == -1) seg = SR_DS;
                     if (verbose) sprintf(insttext, "REPE CMPSB");
                     flags = FZ;
                     while ((flags & FZ) && TRIM(reg[R_CX])) {
-                        DoOp(OP_CMP, Read8(SR_DS, reg[R_SI]), Read8(SR_ES, reg[R_DI]));
+                        DoOp(OP_CMP, Read8(seg, reg[R_SI]), Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
                         reg[R_SI] += 1;
@@ -1027,17 +1031,19 @@ int main(int argc, char** argv)
             case 0xAC:
                 {
                     assert(rep == 0x00);
+                    if (seg == -1) seg = SR_DS;
                     if (verbose) sprintf(insttext, "LODSB");
                     dsize = 0;
-                    WriteReg(R_AX, Read8(SR_DS, reg[R_SI]));
+                    WriteReg(R_AX, Read8(seg, reg[R_SI]));
                     reg[R_SI] += 1;
                 }
                 break;
             case 0xAD:
                 {
                     assert(rep == 0x00);
+                    if (seg == -1) seg = SR_DS;
                     if (verbose) sprintf(insttext, "LODSW");
-                    WriteReg(R_AX, Read16(SR_DS, reg[R_SI]));
+                    WriteReg(R_AX, Read16(seg, reg[R_SI]));
                     reg[R_SI] += 2;
                 }
                 break;
-- 
2.43.0


From cbbca274cd24c1426a9b288662889998577015f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 068/111] fix: REPE CMPSB and REPNE SCASB with CX=0 leave the
 flags alone

---
 sim86.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sim86.c b/sim86.c
index 5e7aa81..0237dc2 100644
--- a/sim86.c
+++ b/sim86.c
@@ -986,12 +986,13 @@ int main(int argc, char** argv)
                     assert(rep == 0xF3);
                     if (seg == -1) seg = SR_DS;
                     if (verbose) sprintf(insttext, "REPE CMPSB");
-                    flags = FZ;
-                    while ((flags & FZ) && TRIM(reg[R_CX])) {
+                    while (TRIM(reg[R_CX])) {
                         DoOp(OP_CMP, Read8(seg, reg[R_SI]), Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
                         reg[R_SI] += 1;
+                        if (!(flags & FZ))
+                            break;
                     }
                 }
                 break;
@@ -1051,11 +1052,12 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0xF2);
                     if (verbose) strcpy(insttext, "REPNE SCASB");
-                    flags = 0;
-                    while (!(flags & FZ) && TRIM(reg[R_CX])) {
+                    while (TRIM(reg[R_CX])) {
                         DoOp(OP_CMP, (unsigned char)reg[R_AX], Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
                         reg[R_DI] += 1;
+                        if (flags & FZ)
+                            break;
                     }
                 }
                 break;
-- 
2.43.0


From 3b84ff186d44c8c428d4a8ceec38db5adbdd124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 069/111] fix: overflow flag and large counts of shifts

---
 sim86.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/sim86.c b/sim86.c
index 0237dc2..10a9949 100644
--- a/sim86.c
+++ b/sim86.c
@@ -386,6 +386,16 @@ void DoOp(int op, unsigned l, unsigned r)
         WriteRM(res);
 }
 
+void ShiftResult(unsigned v, unsigned res, unsigned c)
+{
+    WriteRM(res);
+    flags = 0;
+    if (c) flags |= FC;
+    if (!TRIM(res)) flags |= FZ;
+    if (res & 0x8000) flags |= FS;
+    if ((res ^ v) & 0x8000) flags |= FO; // Only defined for a count of 1
+}
+
 void ALUOp(int op, int swap)
 {
     ModRM();
@@ -1109,18 +1119,15 @@ int main(int argc, char** argv)
                     default:
                         Fatal("TODO: D1/%d", modrm>>3&7);
                     }
-                    WriteRM(res);
-                    flags = 0;
-                    if (c) flags |= FC;
-                    if (!TRIM(res)) flags |= FZ;
-                    if (res & 0x8000) flags |= FS;
+                    ShiftResult(v, res, c);
                 }
                 break;
             case 0xD3:
                 {
                     ModRM();
                     const unsigned v = ReadRM();
-                    const unsigned a = reg[R_CX]&15;
+                    unsigned a = reg[R_CX]&0xff;
+                    if (a > 17) a = 17; // Nothing changes after that
                     unsigned res, c=0;
                     switch (modrm>>3&7) {
                     case 4: // SHL R/M16, CL
@@ -1136,16 +1143,12 @@ int main(int argc, char** argv)
                     case 7: // SAR R/M16, CL
                         if (verbose) sprintf(insttext, "SAR %s, CL", rmtext);
                         res = SIGNED(v) >> a;
-                        if (a) c = (v >> (a-1)) & 1;
+                        if (a) c = (SIGNED(v) >> (a-1)) & 1;
                         break;
                     default:
                         Fatal("TODO: D3/%d", modrm>>3&7);
                     }
-                    WriteRM(res);
-                    flags = 0;
-                    if (c) flags |= FC;
-                    if (!TRIM(res)) flags |= FZ;
-                    if (res & 0x8000) flags |= FS;
+                    if (a) ShiftResult(v, res, c);
                 }
                 break;
             case 0xE8:
-- 
2.43.0


From ba1e29c6792b5892c116a6ede7fe87bcf97a7469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 070/111] fix: sign and overflow flags of CMPSB and SCASB

---
 sim86.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sim86.c b/sim86.c
index 10a9949..e926a4c 100644
--- a/sim86.c
+++ b/sim86.c
@@ -996,6 +996,7 @@ int main(int argc, char** argv)
                     assert(rep == 0xF3);
                     if (seg == -1) seg = SR_DS;
                     if (verbose) sprintf(insttext, "REPE CMPSB");
+                    dsize = 0;
                     while (TRIM(reg[R_CX])) {
                         DoOp(OP_CMP, Read8(seg, reg[R_SI]), Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
@@ -1062,6 +1063,7 @@ int main(int argc, char** argv)
                 {
                     assert(rep == 0xF2);
                     if (verbose) strcpy(insttext, "REPNE SCASB");
+                    dsize = 0;
                     while (TRIM(reg[R_CX])) {
                         DoOp(OP_CMP, (unsigned char)reg[R_AX], Read8(SR_ES, reg[R_DI]));
                         reg[R_CX] -= 1;
-- 
2.43.0


From 67eb686c919c5c0557a4825bc288099911d3b99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 071/111] fix: scc: ++ and -- of pointers to types of 128 bytes
 and more

The size was output as sign-extended byte, so the pointer moved by size-256.
---
 scc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scc.c b/scc.c
index 80e86f2..b890b51 100644
--- a/scc.c
+++ b/scc.c
@@ -1612,6 +1612,11 @@ void DoIncDecOp(int Op, int Post)
     }
     Op = Op == TOK_MINUSMINUS;
 
+    if (Size > 0x7f) {
+        EmitModrm(I_ALU_RM16_IMM16, Op*(I_SUB>>3), Loc, CurrentVal);
+        OutputWord(Size);
+        return;
+    }
     if (Size > 1) {
         EmitModrm(I_ALU_RM16_IMM8, Op*(I_SUB>>3), Loc, CurrentVal);
         Output1Byte(Size);
-- 
2.43.0


From 43790ae3b6db5e1c31886c72d8d60b688b3dcb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 072/111] fix: scc: the value of a structure assignment

After *p = .. or .. = *q the assigned structure couldn't be used: the address
was garbage (a = b = *q).
---
 scc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scc.c b/scc.c
index b890b51..b454a2f 100644
--- a/scc.c
+++ b/scc.c
@@ -2584,6 +2584,13 @@ void ParseExpr1(int OuterPrecedence)
                     Output1Byte(I_XCHG_AX|R_SI);
                 EmitMovRImm(R_CX, SizeofCurrentType());
                 Output2Bytes(0xF3, 0xA4); // REP MOVSB
+                // The result is the left operand
+                CurrentType = VT_STRUCT | LhsLoc | VT_LVAL;
+                CurrentVal  = LhsVal;
+                if (!LhsLoc) {
+                    Output1Byte(I_XCHG_AX|R_DI);
+                    EmitAddRegConst(R_AX, -SizeofCurrentType());
+                }
                 continue;
             }
 
-- 
2.43.0


From fe67f948b5fca9051015ddec6ccb8387f38465c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 073/111] fix: scc: p - n subtracts n elements

It was compiled as the difference of two pointers.
---
 scc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index b454a2f..82d314f 100644
--- a/scc.c
+++ b/scc.c
@@ -2676,12 +2676,14 @@ AssignedToLoc:
             continue;
         }
         int LhsPointeeSize = 0;
+        int IsPtrDiff = 0;
         if (LhsType & VT_PTRMASK) {
             LhsPointeeSize = SizeofType(LhsType-VT_PTR1, LhsTypeExtra);
             if ((CurrentType&VT_BASEMASK) == VT_ARRAY)
                 LvalToRval(); // Decay array before overwriting CurrentTypeExtra
             CurrentTypeExtra = LhsTypeExtra;
             IsUnsignedOp = 1;
+            IsPtrDiff = Op == '-' && CurrentType & VT_PTRMASK;
         }
         if (CurrentType == (VT_LOCLIT|VT_INT)) {
             if (!((Pending&PENDING_PUSHAX)|IsDeadCode)) Fail();
@@ -2707,7 +2709,7 @@ RhsConst:
                 }
             } else {
                 if ((LhsType&~VT_UNSIGNED) != VT_INT && !LhsPointeeSize) Fail();
-                if (Op == '+' && LhsPointeeSize) {
+                if (LhsPointeeSize && (Op == '+' || Op == '-') && !IsPtrDiff) {
                     GetVal();
                     EmitScaleAx(LhsPointeeSize);
                     CurrentType = LhsType;
@@ -2737,7 +2739,7 @@ DoNormal:
             DoBinOp(Op, R);
         }
 BinOpOut:
-        if (Op == '-' && LhsPointeeSize) {
+        if (IsPtrDiff) {
             IsUnsignedOp = 0; // The difference can be negative
             EmitDivAxConst(LhsPointeeSize);
             CurrentType = VT_INT;
-- 
2.43.0


From fafa8e36f1d7f7cc17a6953099705a97045da7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 074/111] fix: scc: leave room for the stack when scc.com
 compiles itself

With the previous fixes there were less than the needed ~600 bytes left: the stack
overlaps the end of the output buffer.
---
 scc.c | 53 ++++++++++++++++++++---------------------------------
 1 file changed, 20 insertions(+), 33 deletions(-)

diff --git a/scc.c b/scc.c
index 82d314f..a9010a6 100644
--- a/scc.c
+++ b/scc.c
@@ -163,7 +163,7 @@ enum {
     CODESTART = 0x100,
     INBUF_MAX = 512,
     SCOPE_MAX = 16,
-    VARDECL_MAX = 380,
+    VARDECL_MAX = 370,
     ID_MAX = 580,
     ID_HASHMAX = 1024,      // Must be power of 2 and (some what) greater than ID_MAX
     IDBUFFER_MAX = 5000,
@@ -295,11 +295,6 @@ enum {
     PREC_STOP = 100,
 };
 
-struct Label {
-    int Addr;
-    int Ref;
-};
-
 struct NamedLabel {
     int Id;
     int LabelId;
@@ -330,10 +325,10 @@ struct ArrayDecl {
 struct VarDecl {
     int Id;
     int Type;
-    int TypeExtra;
     int Offset;
     int Ref; // Fixup address list for globals
     struct VarDecl* Prev;
+    char TypeExtra;
 };
 
 struct Argument {
@@ -383,7 +378,7 @@ int IgnoreRedef;
 int Scopes[SCOPE_MAX]; // -> Next free VarDecl index (conversely one more than index of last defined variable/id)
 int ScopeCount = 1; // First scope is global
 
-struct Label Labels[LABEL_MAX];
+int Labels[LABEL_MAX]; // >0: fixup address list, <0: negated address
 int LocalLabelCounter;
 
 struct NamedLabel NamedLabels[NAMED_LABEL_MAX];
@@ -1046,8 +1041,7 @@ int MakeLabel(void)
 {
     if (LocalLabelCounter == LABEL_MAX) Fail();
     const int l = LocalLabelCounter++;
-    Labels[l].Addr = 0;
-    Labels[l].Ref = 0;
+    Labels[l] = 0;
     return l;
 }
 
@@ -1142,13 +1136,12 @@ void FlushSpAdj(void);
 
 void EmitLocalLabel(int l)
 {
-    if (l >= LocalLabelCounter || Labels[l].Addr) Fail();
+    if (l >= LocalLabelCounter || Labels[l] < 0) Fail();
     FlushSpAdj();
     IsDeadCode = 0;
     LastZFInst = 0;
-    DoFixups(Labels[l].Ref, 1);
-    Labels[l].Addr = CodeAddress;
-    Labels[l].Ref = 0;
+    DoFixups(Labels[l], 1);
+    Labels[l] = -CodeAddress;
 }
 
 // Labels in expressions can't be reached from elsewhere, so dead code stays dead
@@ -1158,16 +1151,15 @@ void EmitExprLabel(int l, int WasDead)
     IsDeadCode = WasDead;
 }
 
-void WriteOutput(int fd, const void* buf, int count)
+void CheckOutput(int Failed)
 {
-    if (write(fd, buf, count) != count)
+    if (Failed)
         Fatal("Error writing output file");
 }
 
-void CloseOutput(int fd)
+void WriteOutput(int fd, const void* buf, int count)
 {
-    if (close(fd))
-        Fatal("Error closing output file");
+    CheckOutput(write(fd, buf, count) != count);
 }
 
 const char StaticName[] = "@static";
@@ -1336,8 +1328,8 @@ void EmitDivAxConst(int Amm)
 int EmitLocalJump(int l)
 {
     if ((unsigned)l >= (unsigned)LocalLabelCounter) Fail();
-    int Addr = Labels[l].Addr;
-    if (Addr) {
+    int Addr = -Labels[l];
+    if (Addr > 0) {
         Addr -= CodeAddress+2;
         if (Addr == (signed char)Addr) {
             Output2Bytes(I_JMP_REL8, Addr);
@@ -1348,7 +1340,7 @@ int EmitLocalJump(int l)
         return 1;
     }
     Output1Byte(I_JMP_REL16);
-    AddFixup(&Labels[l].Ref);
+    AddFixup(&Labels[l]);
     return 0;
 }
 
@@ -1366,8 +1358,8 @@ void EmitJcc(int cc, int l)
     if (EmitChecks())
         return;
 
-    int a = Labels[l].Addr;
-    if (a) {
+    int a = -Labels[l];
+    if (a > 0) {
         a -= CodeAddress+2;
         if (a == (signed char)a) {
             Output2Bytes(0x70 | cc, a);
@@ -1612,16 +1604,11 @@ void DoIncDecOp(int Op, int Post)
     }
     Op = Op == TOK_MINUSMINUS;
 
-    if (Size > 0x7f) {
+    if (Size > 1) {
         EmitModrm(I_ALU_RM16_IMM16, Op*(I_SUB>>3), Loc, CurrentVal);
         OutputWord(Size);
         return;
     }
-    if (Size > 1) {
-        EmitModrm(I_ALU_RM16_IMM8, Op*(I_SUB>>3), Loc, CurrentVal);
-        Output1Byte(Size);
-        return;
-    }
     EmitModrm(0xFE|WordOp, Op, Loc, CurrentVal);
 }
 
@@ -3444,7 +3431,7 @@ void ParseExternalDefition(void)
         Output2Bytes(I_POP|R_BP, I_RET);
 
         // When debugging:
-        //int l;for (l = 0; l < LocalLabelCounter; ++l)if (!(Labels[l].Ref == 0)) Fail();
+        //int l;for (l = 0; l < LocalLabelCounter; ++l)if (Labels[l] > 0) Fail();
         LocalLabelCounter = 0;
         NamedLabelCount = 0;
         PopScope();
@@ -3581,7 +3568,7 @@ int main(int argc, char** argv)
     if (CodeAddress - SBSS->Offset != BssSize) Fail();
     EmitGlobalLabel(EBSS);
 
-    CloseOutput(MapFile);
+    CheckOutput(close(MapFile));
 
     if (argv[2])
        CopyStr(IdBuffer, argv[2]);
@@ -3589,7 +3576,7 @@ int main(int argc, char** argv)
         MakeOutputFilename(argv[1], ".com");
     const int OutFile = OpenOutput();
     WriteOutput(OutFile, Output, CodeAddress - BssSize - CODESTART);
-    CloseOutput(OutFile);
+    CheckOutput(close(OutFile));
 
     return 0;
 }
-- 
2.43.0


From 91447ef3edc45eecf754b7bef1e472f3292fb9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:29 +0000
Subject: [PATCH 075/111] fix: scc: n + p adds n elements

Only p + n was scaled by the element size.
---
 scc.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/scc.c b/scc.c
index a9010a6..0aa2263 100644
--- a/scc.c
+++ b/scc.c
@@ -2690,12 +2690,24 @@ RhsConst:
                 GetVal();
                 if (Temp) {
                     CurrentVal = LhsVal;
+                    if (CurrentType & VT_PTRMASK)
+                        CurrentVal *= SizeofType(CurrentType-VT_PTR1, CurrentTypeExtra);
                     goto RhsConst;
                 } else {
                     EmitMovRImm(R_CX, LhsVal);
                 }
             } else {
                 if ((LhsType&~VT_UNSIGNED) != VT_INT && !LhsPointeeSize) Fail();
+                if (Op == '+' && !LhsPointeeSize && ((CurrentType & VT_PTRMASK) || (CurrentType & VT_BASEMASK) == VT_ARRAY)) {
+                    // Index + pointer
+                    GetVal();
+                    Output1Byte(I_XCHG_AX|R_SI);
+                    GetStoredVal(R_AX);
+                    EmitScaleAx(SizeofType(CurrentType-VT_PTR1, CurrentTypeExtra));
+                    Output2Bytes(I_ADD|1, MODRM_REG|R_SI<<3);
+                    FinishOp(I_ADD|1);
+                    continue;
+                }
                 if (LhsPointeeSize && (Op == '+' || Op == '-') && !IsPtrDiff) {
                     GetVal();
                     EmitScaleAx(LhsPointeeSize);
-- 
2.43.0


From eeecbe0a635726d00fef66090191d8c8b3016a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 076/111] fix: scc: crash for a constant division by zero

---
 scc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 0aa2263..bf89c03 100644
--- a/scc.c
+++ b/scc.c
@@ -2300,6 +2300,8 @@ void DoRhsConstBinOp(int Op)
 
 int DoConstBinOp(int Op, int L, int R)
 {
+    if (!R && (Op == '/' || Op == '%'))
+        Op = 0;
     switch (Op) {
     case '+':     return L + R;
     case '-':     return L - R;
@@ -2318,7 +2320,7 @@ int DoConstBinOp(int Op, int L, int R)
     case TOK_EQEQ: return L == R;
     case TOK_NOTEQ: return L != R;
     }
-    Fail();
+    Fail(); // Also for division by zero
 }
 
 int OpCommutes(int Op)
-- 
2.43.0


From e6bcfada3a6c4161ddcf5c93a0b1889a9870db50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 077/111] fix: scpp: crash for a division by zero in #if

Only an error where the result is used.
---
 scpp.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/scpp.c b/scpp.c
index aeffba2..6eca187 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1338,9 +1338,12 @@ int OperatorPrecedence(int Op)
     return 100;
 }
 
+int ExprDead; // Evaluating an operand that is not used
+
 int EvalExpr1(int LHS, int OuterPrec)
 {
     for (;;) {
+        const int WasDead = ExprDead;
         SkipWS();
         const int Op = CurTok.Type;
         if (Op <= ' ' || Op >= TOK_ID)
@@ -1350,12 +1353,17 @@ int EvalExpr1(int LHS, int OuterPrec)
             break;
         GetToken();
         if (Op == '?') {
+            ExprDead = WasDead || !LHS;
             const int L = EvalExpr1(EvalUnary(), 14);
             Expect(':');
+            ExprDead = WasDead || LHS;
             const int R = EvalExpr1(EvalUnary(), 14);
+            ExprDead = WasDead;
             LHS = LHS ? L : R;
             continue;
         }
+        if ((Op == TOK_ANDAND && !LHS) || (Op == TOK_OROR && LHS))
+            ExprDead = 1;
         int RHS = EvalUnary();
         for (;;) {
             SkipWS();
@@ -1367,6 +1375,14 @@ int EvalExpr1(int LHS, int OuterPrec)
                 break;
             RHS = EvalExpr1(RHS, LookAheadPrec);
         }
+        ExprDead = WasDead;
+        if (!RHS && (Op == '/' || Op == '%')) {
+            if (!ExprDead) {
+                printf("Division by zero\n");
+                assert(0);
+            }
+            RHS = 1;
+        }
         switch (Op) {
         case '*': LHS *= RHS; break;
         case '/': LHS /= RHS; break;
-- 
2.43.0


From fa539a8908475b1f282a7360aee30ac59431a543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 078/111] fix: scc: room for scc.c and sim86.c to grow again

The fixes so far had used up the identifiers, labels and output bytes left for
compiling them.
---
 scc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index bf89c03..de5b70a 100644
--- a/scc.c
+++ b/scc.c
@@ -163,13 +163,13 @@ enum {
     CODESTART = 0x100,
     INBUF_MAX = 512,
     SCOPE_MAX = 16,
-    VARDECL_MAX = 370,
-    ID_MAX = 580,
+    VARDECL_MAX = 376,
+    ID_MAX = 586,
     ID_HASHMAX = 1024,      // Must be power of 2 and (some what) greater than ID_MAX
     IDBUFFER_MAX = 5000,
-    LABEL_MAX = 320,
+    LABEL_MAX = 340,
     NAMED_LABEL_MAX = 8,
-    OUTPUT_MAX = 0x6000,    // Always try to reduce this if something fails unexpectedly... ~600bytes of stack is needed.
+    OUTPUT_MAX = 0x6080,    // Always try to reduce this if something fails unexpectedly... ~600bytes of stack is needed.
     STRUCT_MAX = 8,
     STRUCT_MEMBER_MAX = 32,
     ARRAY_MAX = 32,
-- 
2.43.0


From 3376425632b9071827907a030439de56a133c19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:27 +0000
Subject: [PATCH 079/111] fix: scc: writes behind the output and identifier
 buffers

The size of the output was only checked now and then, the end of string
literals and identifiers only after they had been stored.
---
 scc.c | 59 +++++++++++++++++++++++------------------------------------
 1 file changed, 23 insertions(+), 36 deletions(-)

diff --git a/scc.c b/scc.c
index de5b70a..a3dec0d 100644
--- a/scc.c
+++ b/scc.c
@@ -654,25 +654,25 @@ void GetStringLiteral(void)
     TokenNumVal = 0;
 
     for (;;) {
-        while (CurChar != '"') {
-            if (!CurChar) {
-                Fatal("Unterminated string literal");
-            }
-            char ch = CurChar;
-            NextChar();
-            if (ch == '\\') {
-                ch = Unescape();
-            }
-            TokenStrLit[TokenNumVal++] = ch;
+        if (TokenStrLit+TokenNumVal-Output >= OUTPUT_MAX) Fail();
+        char ch = CurChar;
+        if (!ch) {
+            Fatal("Unterminated string literal");
         }
         NextChar();
-        SkipWhitespace();
-        if (CurChar != '"')
-            break;
-        NextChar();
+        if (ch == '"') {
+            SkipWhitespace();
+            if (CurChar != '"')
+                break;
+            NextChar();
+            continue;
+        }
+        if (ch == '\\') {
+            ch = Unescape();
+        }
+        TokenStrLit[TokenNumVal++] = ch;
     }
     TokenStrLit[TokenNumVal++] = 0;
-    if (TokenStrLit+TokenNumVal-Output > OUTPUT_MAX) Fail();
 }
 
 const char IsIdChar[] = "\x00\x00\x00\x00\x00\x00\xFF\x03\xFE\xFF\xFF\x87\xFE\xFF\xFF\x07\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00";
@@ -711,6 +711,7 @@ void GetToken(void)
         char* pc = IdBufPtr;
         unsigned Hash = (*pc++ = TokenType);
         while ((IsIdChar[(unsigned char)CurChar>>3]>>(CurChar&7)) & 1) {
+            if (pc == &IdBuffer[IDBUFFER_MAX-1]) Fail();
             Hash += (Hash<<4)+(*pc++ = CurChar);
             if ((CurChar = *InBufPtr++))
                 continue;
@@ -725,7 +726,7 @@ void GetToken(void)
                 TokenType = IdHashTab[Hash] = IdCount++;
                 IdText[TokenType] = IdBufPtr;
                 IdBufPtr = pc;
-                if (IdBufPtr-IdBuffer > IDBUFFER_MAX) Fail();
+                if (IdBufPtr-IdBuffer > IDBUFFER_MAX-2) Fail();
                 break;
             }
             if (memcmp(IdBufPtr, IdText[TokenType], pc - IdBufPtr)) {
@@ -1003,38 +1004,25 @@ void Output1Byte(int b0)
     if (IsDeadCode|Pending) {
         if (EmitChecks()) return;
     }
+    if (CodeAddress >= OUTPUT_MAX+CODESTART) Fail();
     Output[CodeAddress++ - CODESTART] = b0;
 }
 
 void Output2Bytes(int b0, int b1)
 {
-    if (IsDeadCode|Pending) {
-        if (EmitChecks()) return;
-    }
-    unsigned char* o = &Output[(CodeAddress += 2) - (CODESTART+2)];
-    o[0] = b0;
-    o[1] = b1;
+    Output1Byte(b0);
+    Output1Byte(b1);
 }
 
 void OutputWord(int w)
 {
-    if (IsDeadCode|Pending) {
-        if (EmitChecks()) return;
-    }
-    unsigned char* o = &Output[(CodeAddress += 2) - (CODESTART+2)];
-    o[0] = w;
-    o[1] = w>>8;
+    Output2Bytes(w, w>>8);
 }
 
 void Output3Bytes(int b0, int b1, int b2)
 {
-    if (IsDeadCode|Pending) {
-        if (EmitChecks()) return;
-    }
-    unsigned char* o = &Output[(CodeAddress += 3) - (CODESTART+3)];
-    o[0] = b0;
-    o[1] = b1;
-    o[2] = b2;
+    Output1Byte(b0);
+    Output2Bytes(b1, b2);
 }
 
 int MakeLabel(void)
@@ -1438,7 +1426,6 @@ int EmitChecks(void)
         FlushSpAdj();
         FlushPushAx();
     }
-    if (CodeAddress > OUTPUT_MAX+CODESTART) Fail();
     return 0;
 }
 
-- 
2.43.0


From 597be89ba1d5a99c96d6fd1c8003468161b5a5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:27 +0000
Subject: [PATCH 080/111] fix: scc: refuse data that does not fit into the
 segment

More than 64 KB of variables were accepted and wrapped around onto the code.
---
 scc.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/scc.c b/scc.c
index a3dec0d..6647b91 100644
--- a/scc.c
+++ b/scc.c
@@ -1496,6 +1496,12 @@ int IsTypeStart(void)
     return LookupTypedef() != 0;
 }
 
+int CheckSize(int Size, unsigned Max)
+{
+    if ((unsigned)Size > Max) Fail();
+    return Size;
+}
+
 int SizeofType(int Type, int Extra)
 {
     if (Type & (VT_PTRMASK|VT_FUNPTR))
@@ -1507,7 +1513,7 @@ int SizeofType(int Type, int Extra)
         {
             struct ArrayDecl* AD = &ArrayDecls[Extra];
             if (!AD->Bound) Fail();
-            return AD->Bound * SizeofType(AD->Type, AD->TypeExtra);
+            return AD->Bound * CheckSize(SizeofType(AD->Type, AD->TypeExtra), 0xFF00 / (unsigned)AD->Bound);
         }
     case VT_STRUCT:
         {
@@ -1517,7 +1523,7 @@ int SizeofType(int Type, int Extra)
             for (; SM; SM = SM->Next) {
                 const int MSize = SizeofType(SM->Type, SM->TypeExtra);
                 if (!IsUnion)
-                    Size += MSize;
+                    Size += CheckSize(MSize, 0xFF00 - Size);
                 else if (MSize > Size)
                     Size = MSize;
             }
@@ -3356,7 +3362,7 @@ Skip:
                 } else {
                     Pending -= size;
                 }
-                LocalOffset -= size;
+                LocalOffset -= CheckSize(size, 0xFF00 - -LocalOffset);
                 vd->Offset = LocalOffset;
             }
             vd = NextDecl();
@@ -3564,7 +3570,7 @@ int main(int argc, char** argv)
             Fatal("Undefined function");
         }
         EmitGlobalLabel(vd);
-        CodeAddress += SizeofType(CurrentType, vd->TypeExtra);
+        CodeAddress += CheckSize(SizeofType(CurrentType, vd->TypeExtra), 0xFF00 - CodeAddress);
     }
     if (CodeAddress - SBSS->Offset != BssSize) Fail();
     EmitGlobalLabel(EBSS);
-- 
2.43.0


From 55d6a0f584d38b9182794cf754923632e692c9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:56 +0000
Subject: [PATCH 081/111] fix: sas: writes behind the identifier tables

---
 sas.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sas.c b/sas.c
index b28c04f..9198abf 100644
--- a/sas.c
+++ b/sas.c
@@ -493,6 +493,7 @@ int AddId(const char* Str)
 {
     int l = (int)strlen(Str) + 1;
     assert(IdBufferIndex + l <= IDBUFFER_MAX);
+    assert(IdCount < ID_MAX);
     memcpy(IdBuffer + IdBufferIndex, Str, l);
     IdOffset[IdCount] = IdBufferIndex;
     IdBufferIndex += l;
-- 
2.43.0


From 2513ad7b60dbfb84cf7532cf5c427514220ab198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 082/111] fix: sas: long file names overflowed the string
 buffer

---
 sas.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sas.c b/sas.c
index 9198abf..1a6e184 100644
--- a/sas.c
+++ b/sas.c
@@ -1683,11 +1683,12 @@ int main(int argc, char** argv)
         }
     }
 
-    if (argv[2])
-       strcpy(StringBuf, argv[2]);
-    else
-        MakeOutputFilename(StringBuf, argv[1]);
-    const int OutFile = open(StringBuf, CREATE_FLAGS, 0600);
+    const char* OutName = argv[2];
+    if (!OutName) {
+        MakeOutputFilename(IdBuffer, argv[1]); // Not needed any more, and large enough for any file name
+        OutName = IdBuffer;
+    }
+    const int OutFile = open(OutName, CREATE_FLAGS, 0600);
     if (OutFile < 0) {
         Fatal("Error creating output file");
     }
-- 
2.43.0


From 27c2bbde5123c92aee6f3d4ebfec95ba3f0072e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 083/111] fix: scpp: long identifiers and numbers overflowed
 the token data

---
 scpp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scpp.c b/scpp.c
index 6eca187..1a91109 100644
--- a/scpp.c
+++ b/scpp.c
@@ -741,6 +741,7 @@ Restart:
             if (CurrentChar == 'x' || CurrentChar == 'X')
                 ReadToTokenData();
             while ((IsIdChar[(unsigned char)CurrentChar>>3]>>(CurrentChar&7)) & 1) {
+                assert(TokenDataPos < TOKEN_DATA_MAX);
                 TokenData[TokenDataPos++] = CurrentChar;
                 if ((CurrentChar = *CurFileBuf++))
                     continue;
@@ -754,6 +755,7 @@ Identifier:
         CurTok.Type = TOK_RAW_ID;
         CurHash = 0;
         do {
+            assert(TokenDataPos < TOKEN_DATA_MAX);
             CurHash += (CurHash<<4)+(TokenData[TokenDataPos++] = CurrentChar);
             if (!(CurrentChar = *CurFileBuf++)) {
                 --CurFileBuf;
-- 
2.43.0


From 1d52c8c5eeb37b2354613f4c281a4a231f485aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:08 +0000
Subject: [PATCH 084/111] fix: scpp: long file names overflowed the buffer for
 the output's name

---
 scpp.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/scpp.c b/scpp.c
index 1a91109..54d101b 100644
--- a/scpp.c
+++ b/scpp.c
@@ -294,7 +294,6 @@ enum {
     ARGUMENT_MAX    = 32,
     FILES_MAX       = 4,
     FILE_BUF_SIZE   = 512,
-    FNAME_MAX       = 64,
 };
 
 #if 0 // Uncomment to test with real/larger files
@@ -1703,10 +1702,10 @@ int main(int argc, char** argv)
     }
 
     const char* OutName = argv[2];
-    char Temp[FNAME_MAX];
     if (!OutName) {
-        MakeOutputFilename(Temp, argv[1]);
-        OutName = Temp;
+        assert((int)strlen(argv[1]) < TOKEN_DATA_MAX-2);
+        MakeOutputFilename(TokenData, argv[1]); // Not in use yet
+        OutName = TokenData;
     }
     OutFile = OpenFile(OutName, 1);
 
-- 
2.43.0


From e82ed3a4aa90ad3c06797813a88598033601b326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:12 +0000
Subject: [PATCH 085/111] fix: scpp: a dot in a directory name was taken for
 the extension

---
 scpp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scpp.c b/scpp.c
index 54d101b..da43086 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1688,6 +1688,8 @@ void MakeOutputFilename(char* dest, const char* n)
     while (*n) {
         if (*n == '.')
             LastDot = dest;
+        if (*n == '/' || *n == '\\')
+            LastDot = 0;
         *dest++ = *n++;
     }
     if (!LastDot) LastDot = dest;
-- 
2.43.0


From a4a79e48a93ced97402769c16306dd54845972a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 086/111] fix: sas: a dot in a directory name was taken for the
 extension

---
 sas.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sas.c b/sas.c
index 1a6e184..b4ffde7 100644
--- a/sas.c
+++ b/sas.c
@@ -1575,6 +1575,8 @@ void MakeOutputFilename(char* dest, const char* n)
     while (*n) {
         if (*n == '.')
             LastDot = dest;
+        if (*n == '/' || *n == '\\')
+            LastDot = 0;
         *dest++ = *n++;
     }
     strcpy(LastDot ? LastDot : dest, ".com");
-- 
2.43.0


From c6424fc53ba09c4b927dfc2bbaca774b607a811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 087/111] fix: scc: a dot in a directory name was taken for the
 extension

---
 scc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scc.c b/scc.c
index 6647b91..c7f9132 100644
--- a/scc.c
+++ b/scc.c
@@ -3487,6 +3487,8 @@ void MakeOutputFilename(const char* n, const char* ext)
     while (*n) {
         if (*n == '.')
             LastDot = dest;
+        if (*n == '/' || *n == '\\')
+            LastDot = 0;
         *dest++ = *n++;
     }
     CopyStr(LastDot ? LastDot : dest, ext);
-- 
2.43.0


From e06e1c256ca6ee19f6beeee65b88d77b553ae748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 088/111] fix: scc: lines of the map file were composed behind
 the identifier buffer

---
 scc.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/scc.c b/scc.c
index c7f9132..a7609f4 100644
--- a/scc.c
+++ b/scc.c
@@ -1158,12 +1158,14 @@ void EmitGlobalLabel(struct VarDecl* vd)
     IsDeadCode = 0;
     DoFixups(vd->Ref, vd->Type & VT_FUN);
 
-    char* P = CvtHex(IdBufPtr, CodeAddress);
-    *P++ = ' ';
-    P = CopyStr(P, vd->Id == -2 ? StaticName : IdText[vd->Id]);
-    *P++ = '\r';
-    *P++ = '\n';
-    WriteOutput(MapFile, IdBufPtr, (int)(P - IdBufPtr));
+    char TempBuf[6];
+    *CvtHex(TempBuf, CodeAddress) = ' ';
+    WriteOutput(MapFile, TempBuf, 5);
+    const char* s = vd->Id == -2 ? StaticName : IdText[vd->Id];
+    const char* end = s;
+    while (*end) ++end;
+    WriteOutput(MapFile, s, (int)(end - s));
+    WriteOutput(MapFile, "\r\n", 2);
 }
 
 void EmitGlobalRef(struct VarDecl* vd)
-- 
2.43.0


From 0055c43c93976f32dddd54b96af2a350f77c5e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:26 +0000
Subject: [PATCH 089/111] fix: sas: DW of a label defined later was output as 0

---
 sas.c | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/sas.c b/sas.c
index b4ffde7..d7c4cab 100644
--- a/sas.c
+++ b/sas.c
@@ -976,6 +976,17 @@ void Parse2Operands(struct Operand* op1, struct Operand* op2)
     ParseOperand(op2);
 }
 
+void AddFixupHere(struct Label* L, char Type)
+{
+    assert(NextFixup);
+    struct Fixup* F = NextFixup;
+    NextFixup = NextFixup->Next;
+    F->Type   = Type;
+    F->Offset = OutputBufPos;
+    F->Next   = L->Fixups;
+    L->Fixups = F;
+}
+
 void HandleDx(int size)
 {
     int n = 0; // Keep count of string output for alignment
@@ -996,12 +1007,9 @@ void HandleDx(int size)
             assert(size == 2);
             struct Label* L = ReferenceLabel();
             assert(L->Type == LABEL_NORMAL);
-            if (L->Val != -1) {
-                OutputWord(L->Val);
-            } else {
-                OutputWord(0);
-                printf("TODO: Need DISP16 fixup for DW\n");
-            }
+            if (L->Val == -1)
+                AddFixupHere(L, FIXUP_DISP16);
+            OutputWord(L->Val == -1 ? 0 : L->Val);
         } else {
             Fatal("Unexpected token in DB/DW directive: %s", TokenText());
         }
@@ -1045,17 +1053,6 @@ void HandleDirective(int Dir)
     Fatal("Directive not implemented: %s\n", IdText(Dir));
 }
 
-void AddFixupHere(struct Label* L, char Type)
-{
-    assert(NextFixup);
-    struct Fixup* F = NextFixup;
-    NextFixup = NextFixup->Next;
-    F->Type   = Type;
-    F->Offset = OutputBufPos;
-    F->Next   = L->Fixups;
-    L->Fixups = F;
-}
-
 void OutputImm8(struct Operand* Op)
 {
     assert(!Op->Fixup);
-- 
2.43.0


From 0263998f08e09bf6172f4064197ae9fb21d4128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 090/111] fix: sas: short jumps back that are out of range went
 elsewhere

---
 sas.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/sas.c b/sas.c
index d7c4cab..1058c91 100644
--- a/sas.c
+++ b/sas.c
@@ -1215,9 +1215,12 @@ void HandleROT(int r)
 
 void HandleRel8(struct Operand* Op)
 {
+    const int Rel = Op->Disp-(VirtAddress+1);
     if (Op->Fixup)
         AddFixupHere(Op->Fixup, FIXUP_REL8);
-    OutputByte(Op->Disp-(VirtAddress+1));
+    else if (!IsShort(Rel))
+        Fatal("Short jump out of range");
+    OutputByte(Rel);
 }
 
 void HandleRel16(struct Operand* Op)
@@ -1265,12 +1268,7 @@ void HandleJCC(int CC)
     ParseOperand(&op);
     assert(op.Type == OPTYPE_LIT);
     OutputByte(0x70|CC);
-    if (op.Fixup) {
-        AddFixupHere(op.Fixup, FIXUP_REL8);
-        OutputByte(-(VirtAddress+1));
-    } else {
-        OutputByte(op.Disp-(VirtAddress+1));
-    }
+    HandleRel8(&op);
 }
 
 void HandleIncDec(int Dec)
-- 
2.43.0


From 25b0a741ad6f66bb45669c1dd1994688ebfb50d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 091/111] fix: sas: references to labels that are never defined
 were accepted

---
 sas.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sas.c b/sas.c
index 1058c91..c91e84f 100644
--- a/sas.c
+++ b/sas.c
@@ -1563,6 +1563,12 @@ void AddBuiltins(const char* S)
     } while (c);
 }
 
+void CheckLabel(int i)
+{
+    if (Labels[i].Type == LABEL_NORMAL && Labels[i].Val == -1)
+        Fatal("Undefined label %s", IdText(i + TOK_USER_ID));
+}
+
 void MakeOutputFilename(char* dest, const char* n)
 {
     char* LastDot;
@@ -1653,6 +1659,7 @@ int main(int argc, char** argv)
                     // Retire local labels
                     for (i = 0; i < IdCount - (TOK_USER_ID-TOK_ID); ++i) {
                         if (Labels[i].Type && *IdText(i+TOK_USER_ID) == '.') {
+                            CheckLabel(i);
                             Labels[i].Type = LABEL_NONE;
                         }
                     }
@@ -1680,6 +1687,9 @@ int main(int argc, char** argv)
         }
     }
 
+    for (i = 0; i < IdCount - (TOK_USER_ID-TOK_ID); ++i)
+        CheckLabel(i);
+
     const char* OutName = argv[2];
     if (!OutName) {
         MakeOutputFilename(IdBuffer, argv[1]); // Not needed any more, and large enough for any file name
-- 
2.43.0


From 0e4f8d401ec268a8fabf5b3885b28ed5477947bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 092/111] fix: sas: shift counts other than 1 were shifts by 1

---
 sas.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sas.c b/sas.c
index c91e84f..9a87f85 100644
--- a/sas.c
+++ b/sas.c
@@ -1208,6 +1208,8 @@ void HandleROT(int r)
     if (op2.Type == OPTYPE_REG) {
         assert(op2.Disp == TOK_CL);
         Inst |= 2;
+    } else {
+        assert(op2.Type == OPTYPE_LIT && op2.Disp == 1);
     }
     OutputByte(Inst | W);
     OutputByte(0xC0 | r<<3 | (op1.Disp&7));
-- 
2.43.0


From 7a240d7da355b41c16cdda03e3669f1b90e551ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:13 +0000
Subject: [PATCH 093/111] fix: sas: [bp+label] of a label defined later was a
 register operand

---
 sas.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sas.c b/sas.c
index 9a87f85..12765de 100644
--- a/sas.c
+++ b/sas.c
@@ -934,7 +934,7 @@ DoMem:
         }
         Expect(TOK_RBRACKET);
 
-        if (Oper->ModRM == 6 && !Oper->Disp)
+        if (Oper->ModRM == 6 && !Oper->Disp && !Oper->Fixup)
             Oper->ModRM |= 0x40;
 
         if (Oper->ModRM == -1)
-- 
2.43.0


From 415e19b94c83f4cd1b078e4b43c9ec12029b9197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 094/111] fix: scc: index behind the output buffer

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index a7609f4..a2b16db 100644
--- a/scc.c
+++ b/scc.c
@@ -650,7 +650,7 @@ char Unescape(void)
 
 void GetStringLiteral(void)
 {
-    TokenStrLit = &Output[CodeAddress + 64 - CODESTART]; // Just leave a little head room for code to be outputted before consuming the string literal
+    TokenStrLit = Output + (CodeAddress + 64 - CODESTART); // Just leave a little head room for code to be outputted before consuming the string literal
     TokenNumVal = 0;
 
     for (;;) {
-- 
2.43.0


From a64da31dcc111e7e8eefd09a84f20b47cd7e306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:16 +0000
Subject: [PATCH 095/111] fix: an identifier made by ## that spells a
 parameter's name was replaced by its argument

---
 scpp.c | 34 +---------------------------------
 1 file changed, 1 insertion(+), 33 deletions(-)

diff --git a/scpp.c b/scpp.c
index da43086..744cc43 100644
--- a/scpp.c
+++ b/scpp.c
@@ -901,29 +901,6 @@ void PushHandleArg(struct Argument* A)
     Seam = 1;
 }
 
-struct Argument* GetArg(int Id)
-{
-    if (ReplaceNest && ReplaceStack[ReplaceNest-1].M) {
-        struct Argument* A = ReplaceStack[ReplaceNest-1].M->Arguments;
-        if (A == (struct Argument*)1)
-            return 0;
-        for (; A; A = A->Next) {
-            if (A->Id == Id) {
-                if (Debug) {
-                    printf("Matched argument %s\n", IdText[Id-TOK_ID]);
-                    struct TokenList* TL = A->Replacement;
-                    while (TL) {
-                        printf("\t"); PrintToken(&TL->Tok); printf("\n");
-                        TL = TL->Next;
-                    }
-                }
-                return A;
-            }
-        }
-    }
-    return 0;
-}
-
 void GetToken(void)
 {
     for (;;) {
@@ -970,15 +947,6 @@ void GetToken(void)
             return;
         }
         const int Id = CurTok.Type;
-        struct Argument* A = GetArg(Id);
-        if (A) {
-            assert(ReplaceNest < MAX_NEST);
-            ReplaceStack[ReplaceNest].M  = 0;
-            ReplaceStack[ReplaceNest].TL = A->Replacement;
-            ReplaceStack[ReplaceNest].Stop = 0;
-            ++ReplaceNest;
-            continue;
-        }
         struct Macro* M = &Macros[Id - TOK_USER_ID];
         if (M->Hide)
             return;
@@ -1007,7 +975,7 @@ void GetToken(void)
             RawSkipWS();
             if (CurTok.Type != ')') {
                 assert(M->Arguments != (struct Argument*)1);
-                A = M->Arguments;
+                struct Argument* A = M->Arguments;
                 while (A) {
                     struct TokenList** ArgL = &A->Replacement;
                     int Nest = 0;
-- 
2.43.0


From 9536f0a42a7548d05d47381e42e35487534da1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:16 +0000
Subject: [PATCH 096/111] fix: a # inside what is made into a string by another
 # overwrote it, and the string could start with a blank

---
 scpp.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/scpp.c b/scpp.c
index 744cc43..afaf182 100644
--- a/scpp.c
+++ b/scpp.c
@@ -1027,29 +1027,30 @@ void GetToken(void)
 
 char StrBuf[256]; // HACK HACK
 
-int StringifyLiteral(int StrPos)
+int StringifyLiteral(char* Buf, int StrPos)
 {
     const char* Text = CurTok.Text;
     const int IsStr = CurTok.Type == TOK_STRLIT;
     assert(StrPos+4 < (int)sizeof(StrBuf));
     if (IsStr)
-        StrBuf[StrPos++] = '\\';
-    StrBuf[StrPos++] = IsStr ? '"' : '\'';
+        Buf[StrPos++] = '\\';
+    Buf[StrPos++] = IsStr ? '"' : '\'';
     while (*Text) {
         assert(StrPos+4 < (int)sizeof(StrBuf));
         if (*Text == '"' || *Text == '\\')
-            StrBuf[StrPos++] = '\\';
-        StrBuf[StrPos++] = *Text++;
+            Buf[StrPos++] = '\\';
+        Buf[StrPos++] = *Text++;
     }
     assert(StrPos+2 < (int)sizeof(StrBuf));
     if (IsStr)
-        StrBuf[StrPos++] = '\\';
-    StrBuf[StrPos++] = IsStr ? '"' : '\'';
+        Buf[StrPos++] = '\\';
+    Buf[StrPos++] = IsStr ? '"' : '\'';
     return StrPos;
 }
 
 void Stringify(struct TokenList* TL)
 {
+    char Buf[sizeof(StrBuf)]; // Stringification of an argument can happen while expanding it for another one
     int StrPos = 0;
     int PendWS = 0;
     int FromS = 0;
@@ -1077,23 +1078,24 @@ void Stringify(struct TokenList* TL)
         if (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE) {
             PendWS = 1;
         } else {
-            if (PendWS) {
+            if (PendWS && StrPos) {
                 assert(StrPos < (int)sizeof(StrBuf));
-                StrBuf[StrPos++] = ' ';
-                PendWS = 0;
+                Buf[StrPos++] = ' ';
             }
+            PendWS = 0;
             if (CurTok.Type == TOK_STRLIT || CurTok.Type == TOK_CHARLIT) {
-                StrPos = StringifyLiteral(StrPos);
+                StrPos = StringifyLiteral(Buf, StrPos);
                 continue;
             }
             const int l = (int)strlen(CurTok.Text);
             assert(StrPos+l < (int)sizeof(StrBuf));
-            memcpy(&StrBuf[StrPos], CurTok.Text, l);
+            memcpy(&Buf[StrPos], CurTok.Text, l);
             StrPos += l;
         }
     }
     assert(StrPos < (int)sizeof(StrBuf));
-    StrBuf[StrPos] = 0;
+    Buf[StrPos] = 0;
+    memcpy(StrBuf, Buf, StrPos+1);
 
     CurTok.Type = TOK_STRLIT;
     CurTok.Text = StrBuf;
-- 
2.43.0


From 5570a0c17bf9ca1853cf1e87a2bddd1bae9efc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:16 +0000
Subject: [PATCH 097/111] fix: # and ## in the text of a macro's arguments and
 # in object-like macros were taken as operators

---
 scpp.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/scpp.c b/scpp.c
index afaf182..f7e3c29 100644
--- a/scpp.c
+++ b/scpp.c
@@ -320,6 +320,8 @@ enum {
 
     TOK_CREATED_OP = 128,
     TOK_HASHHASH,
+    TOK_STRINGIFY, // # in the definition of a function-like macro
+    TOK_PASTE,     // ## in a definition
     TOK_LTEQ,
     TOK_GTEQ,
     TOK_EQEQ,
@@ -612,7 +614,7 @@ void RawGetToken(void)
 
             // Look for paste operation
             struct TokenList* TL = SkipWsNL(RS->TL);
-            while (TL && TL->Tok.Type == TOK_HASHHASH) {
+            while (TL && TL->Tok.Type == TOK_PASTE) {
                 TL = SkipWsNL(TL->Next);
                 assert(TL);
                 PasteAppend(&TL->Tok);
@@ -909,9 +911,7 @@ void GetToken(void)
         switch (CurTok.Type) {
         case TOK_RAW_ID:
             break;
-        case '#':
-            if (!ReplaceNest)
-                return;
+        case TOK_STRINGIFY:
             if (Debug) printf("Stringify!\n");
             RawGetToken();
             RawSkipWS();
@@ -1073,6 +1073,12 @@ void Stringify(struct TokenList* TL)
             ReplaceStack[ReplaceNest-1].Stop = 1;
             continue;
         }
+        if (CurTok.Type == TOK_STRINGIFY) {
+            TL = SkipWsNL(TL);
+            assert(TL && TL->Tok.Type == TOK_ARG);
+            Stringify(((struct Argument*)TL->Tok.Text)->Replacement);
+            TL = TL->Next;
+        }
 
         if (Debug) { printf("Stringifying: "); PrintToken(&CurTok); printf("\n"); }
         if (CurTok.Type == TOK_WHITESPACE || CurTok.Type == TOK_NEWLINE) {
@@ -1179,7 +1185,10 @@ void HandleDefine(void)
                 }
             }
             CurTok.Type = TOK_RAW_ID;
-        }
+        } else if (M->Arguments && CurTok.Type == '#')
+            CurTok.Type = TOK_STRINGIFY;
+        else if (CurTok.Type == TOK_HASHHASH)
+            CurTok.Type = TOK_PASTE;
 Add:
         if (PendWS == 1) {
             struct Token WS;
@@ -1547,8 +1556,8 @@ int RunsTogether(int L, int R)
         return R == '=';
     case '/':
         return R == '=' || R == '*' || R == '/';
-    case '.':
-        return R == '.';
+    case '.': case '#':
+        return R == L;
     }
     return 0;
 }
@@ -1575,7 +1584,7 @@ void PPMain(void)
     for (;;) {
         switch (CurTok.Type) {
         case '#':
-            if (!StartOfLine)
+            if (!StartOfLine || ReplaceNest)
                 break;
             RawGetToken();
             HandleDirective();
-- 
2.43.0


From 4349b952363ae911ef0898fa546c6676dc1af8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 098/111] fix: scc: the size of a struct that isn't defined was
 read from outside the table

---
 scc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scc.c b/scc.c
index a2b16db..8dc99dd 100644
--- a/scc.c
+++ b/scc.c
@@ -1519,6 +1519,7 @@ int SizeofType(int Type, int Extra)
         }
     case VT_STRUCT:
         {
+            if ((unsigned)Extra >= (unsigned)StructCount) Fail(); // Not defined
             const int IsUnion = StructDecls[Extra].Id & IS_UNION_FLAG;
             int Size = 0;
             struct StructMember* SM = StructDecls[Extra].Members;
-- 
2.43.0


From bd96ed43258ddee2b3fa95fdf1dd3576276d9cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:16 +0000
Subject: [PATCH 099/111] fix: scc: a function definition with an unnamed
 parameter wrote outside a table

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 8dc99dd..5ceecc2 100644
--- a/scc.c
+++ b/scc.c
@@ -1621,7 +1621,7 @@ struct VarDecl* AddVarDeclScope(int Scope, int Id)
 
 struct VarDecl* AddVarDecl(int Id)
 {
-    if (Scopes[ScopeCount-1] >= VARDECL_MAX) Fail();
+    if (Id < 0 || Scopes[ScopeCount-1] >= VARDECL_MAX) Fail();
 
     // Check if definition/re-declaration in global scope
     struct VarDecl* Prev = VarLookup[Id];
-- 
2.43.0


From 990f5bc080e0ba9f52fa0ab7dc0a9df2a296c221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:20 +0000
Subject: [PATCH 100/111] fix: scc: a long identifier in an error message
 overran a buffer on the stack

---
 scc.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/scc.c b/scc.c
index 5ceecc2..c38a796 100644
--- a/scc.c
+++ b/scc.c
@@ -486,15 +486,19 @@ char* VSPrintf(char* dest, const char* format, va_list vl)
     return dest;
 }
 
+void PrintStr(const char* s)
+{
+    while (*s)
+        putchar(*s++);
+}
+
 void Printf(const char* format, ...)
 {
     char LineBuf[80];
     va_list vl;
     va_start(vl, format);
     VSPrintf(LineBuf, format, vl);
-    char* s = LineBuf;
-    while (*s)
-        putchar(*s++);
+    PrintStr(LineBuf);
     va_end(vl);
 }
 
@@ -526,7 +530,7 @@ void Fail(void)
 }
 
 #ifndef __SCC__
-#define Fail() do { Printf("In %s:%d: ", __FILE__, __LINE__); Fail(); } while (0)
+#define Fail() do { PrintStr("In " __FILE__); Printf(":%d: ", __LINE__); Fail(); } while (0)
 #endif
 
 
@@ -926,7 +930,10 @@ Slash:
 
 void PrintTokenType(int T)
 {
-    if (T >= TOK_KEYWORD) Printf("%s ", IdText[T-TOK_KEYWORD]);
+    if (T >= TOK_KEYWORD) {
+        PrintStr(IdText[T-TOK_KEYWORD]);
+        PrintStr(" ");
+    }
     else if (T > ' ' && T < 128) Printf("%c ", T);
     else Printf("%d ", T);
 }
@@ -3571,7 +3578,8 @@ int main(int argc, char** argv)
         if (((CurrentType = vd->Type) & VT_LOCMASK) != VT_LOCGLOB || vd->Offset || vd == EBSS)
             continue;
         if (CurrentType & VT_FUN) {
-            Printf("%s is undefined\n", IdText[vd->Id]);
+            PrintStr(IdText[vd->Id]);
+            PrintStr(" is undefined\n");
             Fatal("Undefined function");
         }
         EmitGlobalLabel(vd);
-- 
2.43.0


From 8eee92f300fbf687a6ecc3560f82d7384d0a99a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:05 +0000
Subject: [PATCH 101/111] fix: sim86: the text of a memory operand overran its
 buffer (-v, -p)

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index e926a4c..e6b2894 100644
--- a/sim86.c
+++ b/sim86.c
@@ -60,7 +60,7 @@ char dsize;
 signed char seg;
 
 int verbose;
-char rmtext[16];
+char rmtext[20]; // [XS:BX+SI-32768]
 char insttext[64];
 const char* filename;
 
-- 
2.43.0


From 1b227d246d3fb6740a38c337bab4a20645e57e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:09 +0000
Subject: [PATCH 102/111] fix: sim86: programs saw another command tail when
 traced or profiled

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index e6b2894..5b6c159 100644
--- a/sim86.c
+++ b/sim86.c
@@ -776,7 +776,7 @@ int main(int argc, char** argv)
     int p = 0;
     int i;
     for (i = argi + 1; argv[i]; ++i) {
-        if (i != 2) Write8(SR_DS, 0x81+(p++), ' ');
+        if (i != argi + 1) Write8(SR_DS, 0x81+(p++), ' ');
         const char* s = argv[i];
         if (p + strlen(s) > 126)
             Fatal("Command line too long");
-- 
2.43.0


From de402f926df7ff1b59286cc828a2d613dde642f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:13 +0000
Subject: [PATCH 103/111] fix: sim86: -p overran its table of symbols with
 large map files

---
 sim86.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index 5b6c159..75eb9aa 100644
--- a/sim86.c
+++ b/sim86.c
@@ -614,7 +614,7 @@ void DoExit(int ec)
             strcpy(d, ".map");
             FILE* fp = fopen(fname, "rt");
             if (fp) {
-                while (fscanf(fp, "%4X %63s\n", (unsigned*)&entries[num_entries].Addr, entries[num_entries].Id) == 2) {
+                while (num_entries < (int)(sizeof(entries)/sizeof(*entries)) && fscanf(fp, "%4X %63s\n", (unsigned*)&entries[num_entries].Addr, entries[num_entries].Id) == 2) {
                     ++num_entries;
                 }
                 fclose(fp);
-- 
2.43.0


From 346083be8edb7e4a519b6265b5974fa66a07de5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:17 +0000
Subject: [PATCH 104/111] fix: sim86: -p overran a buffer with long file names

---
 sim86.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sim86.c b/sim86.c
index 75eb9aa..e55301b 100644
--- a/sim86.c
+++ b/sim86.c
@@ -607,7 +607,9 @@ void DoExit(int ec)
             { 0, "@@start", 0 },
         };
         int num_entries = 1;
-        char fname[256];
+        char* fname = malloc(strlen(filename)+sizeof(".map"));
+        if (!fname)
+            Fatal("Out of memory");
         strcpy(fname, filename);
         char* d = strrchr(fname, '.');
         if (d) {
-- 
2.43.0


From c1dc4077c792e498f5f47459e2027522390da13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:21 +0000
Subject: [PATCH 105/111] fix: sim86: -p garbled the program's output

---
 sim86.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sim86.c b/sim86.c
index e55301b..b5bb10f 100644
--- a/sim86.c
+++ b/sim86.c
@@ -59,7 +59,7 @@ int addr;
 char dsize;
 signed char seg;
 
-int verbose;
+int verbose; // 1: trace, 2: only compose the instruction's text (profiling)
 char rmtext[20]; // [XS:BX+SI-32768]
 char insttext[64];
 const char* filename;
@@ -579,7 +579,7 @@ void HandleOpen(int oflags)
         return;
     }
     int fd = open(fname, O_BINARY | oflags, 0600);
-    if (verbose) printf("\nopen(%s, %d) -> %d\n", fname, oflags, fd);
+    if (verbose & 1) printf("\nopen(%s, %d) -> %d\n", fname, oflags, fd);
     if (fd < 0) {
         flags |= FC;
         fd = 2; // File not found
@@ -591,7 +591,7 @@ void HandleOpen(int oflags)
 
 void DoExit(int ec)
 {
-    if (verbose) {
+    if (verbose & 1) {
         if (ec)
             printf("\nExiting with error code %d\n", ec);
         else
@@ -685,7 +685,7 @@ void INT(void)
     const int func = reg[R_AX]>>8&0xff;
     if (func == 0x02) {
         int c = reg[R_DX]&0xff;
-        if (verbose)
+        if (verbose & 1)
             printf("\nOutput: 0x%02X (%c)", c, c >= ' ' ? c : '.');
         else
 #ifdef __SCC__
@@ -698,7 +698,7 @@ void INT(void)
     } else if (func == 0x3D) {
         HandleOpen(O_RDONLY);
     } else if (func == 0x3E) {
-        if (verbose) printf("\nclose(%d)\n", reg[R_BX]);
+        if (verbose & 1) printf("\nclose(%d)\n", reg[R_BX]);
         if (close(TRIM(reg[R_BX]))) {
             flags |= FC;
             reg[R_AX] = 6; // Invalid handle
@@ -805,7 +805,7 @@ int main(int argc, char** argv)
 
             if (!addrtext[orig_ip]) {
                 remove_verbose = !verbose;
-                verbose = 1;
+                verbose |= 2;
             }
         }
 #endif
-- 
2.43.0


From 75942bc9d307eefd344b37da57ae336bf55adcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:25 +0000
Subject: [PATCH 106/111] fix: sim86: -p didn't find the symbol of return
 addresses behind the last one

---
 sim86.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sim86.c b/sim86.c
index b5bb10f..85afa96 100644
--- a/sim86.c
+++ b/sim86.c
@@ -651,6 +651,8 @@ void DoExit(int ec)
                     break;
                 }
             }
+            if (entry == num_entries)
+                --entry;
             const struct E* e = &entries[entry];
             const int LastBP = i + 1 < max_stack.depth ? max_stack.frames[i+1].bp : 65536;
             printf("0x%4X;0x%04X;%d;%s+0x%X\n", f->bp, f->ip, LastBP-f->bp, e->Id, f->ip - e->Addr);
-- 
2.43.0


From 4f3a0f76fe38ad43eced1537544e03578592ec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:29 +0000
Subject: [PATCH 107/111] fix: lib.h: %d printed -32768 as punctuation

---
 lib.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib.h b/lib.h
index 69e5be5..1dc9c83 100644
--- a/lib.h
+++ b/lib.h
@@ -206,8 +206,8 @@ char* vsprintf(char* dest, const char* format, va_list vl)
             buf = TempBuf + sizeof(TempBuf);
             *--buf = 0;
             do {
-                *--buf = '0' + n % 10;
-                n/=10;
+                *--buf = '0' + (unsigned)n % 10;
+                n = (unsigned)n / 10;
                 --w;
             } while (n);
             if (s) {
-- 
2.43.0


From 03d58bc0e5cc5813e321f4c3bbd81a50ef406918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:57 +0000
Subject: [PATCH 108/111] fix: scc: ?: with a null pointer constant as one
 operand didn't have the other's type

---
 scc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index c38a796..f415de5 100644
--- a/scc.c
+++ b/scc.c
@@ -2444,10 +2444,12 @@ void HandleCondOp(void)
         CurrentType = LhsType;
         LvalToRval();
         EmitExprLabel(RealEnd, WasDead);
-        if (CurrentType == VT_INT && TypeDiff == (VT_UNSIGNED|VT_INT))
-            CurrentType = TypeDiff; // The result is unsigned if either side is
+        if (CurrentType == VT_INT)
+            CurrentType = TypeDiff; // The result is unsigned or a pointer if either side is
     } else {
         EmitExprLabel(EndLabel, WasDead);
+        if (LhsType & VT_PTRMASK)
+            CurrentType = LhsType;
     }
 }
 
-- 
2.43.0


From 78f9b10f42ba0fa2cb52d0085db88ee9183cf7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:36 +0000
Subject: [PATCH 109/111] fix: scc: do ... while with a constant true condition
 didn't loop

---
 scc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index f415de5..6114440 100644
--- a/scc.c
+++ b/scc.c
@@ -2345,7 +2345,7 @@ void DoCondHasExpr(int Label, int Forward) // forward => jump if label is false
 {
     if (CurrentType == (VT_LOCLIT|VT_INT)) {
         // Constant condition
-        if (!CurrentVal && Forward)
+        if (!CurrentVal == Forward)
             EmitJmp(Label);
         return;
     }
-- 
2.43.0


From 7377795d5c5a08529713612f0eb8858dfabc3935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:41 +0000
Subject: [PATCH 110/111] fix: scc: the value of ++ and -- in front of an
 operand addressed by a pointer was wrong

---
 scc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scc.c b/scc.c
index 6114440..025cf75 100644
--- a/scc.c
+++ b/scc.c
@@ -1610,9 +1610,11 @@ void DoIncDecOp(int Op, int Post)
     if (Size > 1) {
         EmitModrm(I_ALU_RM16_IMM16, Op*(I_SUB>>3), Loc, CurrentVal);
         OutputWord(Size);
-        return;
+    } else {
+        EmitModrm(0xFE|WordOp, Op, Loc, CurrentVal);
     }
-    EmitModrm(0xFE|WordOp, Op, Loc, CurrentVal);
+    if (!Loc && !Post)
+        Output1Byte(I_XCHG_AX|R_SI); // The address is still needed
 }
 
 struct VarDecl* AddVarDeclScope(int Scope, int Id)
-- 
2.43.0


From e007cce1ead42992a97775f09ff185b7b13d1a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:25 +0000
Subject: [PATCH 111/111] fix: scc: the type of a static local array was
 forgotten at the end of its block

---
 scc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scc.c b/scc.c
index 025cf75..acf8050 100644
--- a/scc.c
+++ b/scc.c
@@ -370,6 +370,7 @@ int StructCount;
 
 struct ArrayDecl ArrayDecls[ARRAY_MAX];
 int ArrayCount;
+int ArrayKeep; // Static local variables use the ones before this
 
 struct VarDecl VarDecls[VARDECL_MAX];
 struct VarDecl* VarLookup[ID_MAX];
@@ -3118,7 +3119,7 @@ Redo:
         LocalOffset    = OldOffset;
         StructMemCount = OldStructMemCount;
         StructCount    = OldStructCount;
-        ArrayCount     = OldArrayCount;
+        ArrayCount     = OldArrayCount < ArrayKeep ? ArrayKeep : OldArrayCount;
         return;
     }
 
@@ -3362,6 +3363,7 @@ Skip:
 
             if (CurrentType & VT_STATIC) {
                 vd->Type = (CurrentType & ~VT_STATIC) | VT_LOCGLOB;
+                ArrayKeep = ArrayCount;
                 BssSize += size;
             } else {
                 vd->Type |= VT_LOCOFF;
-- 
2.43.0

