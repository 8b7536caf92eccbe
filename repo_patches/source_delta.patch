From 3ae0af18b9af0d58afce81eaee71087cf8f93399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:44 +0000
Subject: [PATCH 01/22] fix: refuse to start on an incomplete config

The config was never validated, so a config without ProxyUser and
ProxyPassword accepted any client with an empty user name and password.
---
 main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.go b/main.go
index 75f3aa5..a4decea 100644
--- a/main.go
+++ b/main.go
@@ -42,6 +42,9 @@ func main() {
 	if err != nil {
 		log.Fatalln("error loading config file:", err)
 	}
+	if err := cfg.Validate(); err != nil {
+		log.Fatalln("invalid config file:", err)
+	}
 
 	// An SSH server is represented by a ServerConfig, which holds
 	// certificate details and handles authentication of ServerConns.
-- 
2.43.0


From a16160782b5fd931b92eadb7a9871b73e53bfb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:44 +0000
Subject: [PATCH 02/22] fix: do not perform the SSH handshake in the accept
 loop

A client that connected and never finished its handshake kept every other
client from being accepted.
---
 main.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/main.go b/main.go
index a4decea..284826b 100644
--- a/main.go
+++ b/main.go
@@ -105,20 +105,24 @@ func main() {
 			logger.Println("failed to accept incoming connection", err)
 			continue
 		}
-		// Before use, a handshake must be performed on the incoming
-		// net.Conn.
-		_, chans, reqs, err := ssh.NewServerConn(nConn, sshConfig)
-		if err != nil {
-			logger.Println("failed to handshake", err)
-			continue
-		}
-		logger.Println("SSH server established")
-
-		// The incoming Request channel must be serviced.
-		go ssh.DiscardRequests(reqs)
+		go handleConn(nConn, sshConfig, reqHandlers, logger)
+	}
+}
 
-		go handleChannels(chans, reqHandlers, logger)
+func handleConn(nConn net.Conn, sshConfig *ssh.ServerConfig, reqHandlers sftp.Handlers, logger *log.Logger) {
+	// Before use, a handshake must be performed on the incoming
+	// net.Conn.
+	_, chans, reqs, err := ssh.NewServerConn(nConn, sshConfig)
+	if err != nil {
+		logger.Println("failed to handshake", err)
+		return
 	}
+	logger.Println("SSH server established")
+
+	// The incoming Request channel must be serviced.
+	go ssh.DiscardRequests(reqs)
+
+	handleChannels(chans, reqHandlers, logger)
 }
 
 func handleChannels(chans <-chan ssh.NewChannel, reqHandlers sftp.Handlers, logger *log.Logger) {
-- 
2.43.0


From 1f3d703fda85d8d635bc7013f646436fadaadeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:44 +0000
Subject: [PATCH 03/22] fix: do not crash on a short subsystem request

A subsystem request with a payload of less than four bytes panicked and
took the whole proxy down.
---
 main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main.go b/main.go
index 284826b..a8f59b1 100644
--- a/main.go
+++ b/main.go
@@ -158,6 +158,9 @@ func handleChannel(newChannel ssh.NewChannel, reqHandlers sftp.Handlers, logger
 			ok := false
 			switch req.Type {
 			case "subsystem":
+				if len(req.Payload) < 4 {
+					break
+				}
 				logger.Printf("Subsystem: %s\n", req.Payload[4:])
 				if string(req.Payload[4:]) == "sftp" {
 					ok = true
-- 
2.43.0


From 0646129262eeb87145a3f3ff76b3047ce677d1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:44 +0000
Subject: [PATCH 04/22] fix: close the session channel however the SFTP session
 ends

The channel was only closed when Serve returned io.EOF.
---
 main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index a8f59b1..fb9409e 100644
--- a/main.go
+++ b/main.go
@@ -173,8 +173,9 @@ func handleChannel(newChannel ssh.NewChannel, reqHandlers sftp.Handlers, logger
 
 	server := sftp.NewRequestServer(channel, reqHandlers)
 
-	if err := server.Serve(); err == io.EOF {
-		server.Close()
+	err = server.Serve()
+	server.Close()
+	if err == io.EOF {
 		logger.Println("sftp client exited session.")
 	} else if err != nil {
 		logger.Println("sftp server completed with error:", err)
-- 
2.43.0


From ed1ed53426e1777be1f04d0e168c5078738ceb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:44 +0000
Subject: [PATCH 05/22] fix: never report success for an operation that is not
 supported

Mkdir on the file tree and unknown commands on the handlers returned nil,
although nothing had been done.
---
 filetree/filetree.go | 2 +-
 handlers/decrypt.go  | 4 ++--
 handlers/proxy.go    | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 95be0e4..c8cd000 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -201,7 +201,7 @@ func (f *FileTree) Stat(plainPath string) (os.FileInfo, error) {
 }
 
 func (f *FileTree) Mkdir(plainPath string) error {
-	return nil
+	return errors.New("Not supported yet")
 }
 
 func (f *FileTree) Rename(plainPath string, target string) error {
diff --git a/handlers/decrypt.go b/handlers/decrypt.go
index 7ee63d5..f1d3951 100644
--- a/handlers/decrypt.go
+++ b/handlers/decrypt.go
@@ -55,7 +55,7 @@ func (p *decrypt) Filecmd(req *sftp.Request) error {
 		// Probably will never support
 		return fmt.Errorf("Symlink not supported. path: %s, target %s", req.Filepath, req.Target)
 	}
-	return nil
+	return fmt.Errorf("%s not supported. path: %s", req.Method, req.Filepath)
 }
 
 func (p *decrypt) Filelist(req *sftp.Request) (sftp.ListerAt, error) {
@@ -75,5 +75,5 @@ func (p *decrypt) Filelist(req *sftp.Request) (sftp.ListerAt, error) {
 	case "Readlink":
 		return nil, fmt.Errorf("ReadLink not supported. path: %s", req.Filepath)
 	}
-	return nil, nil
+	return nil, fmt.Errorf("%s not supported. path: %s", req.Method, req.Filepath)
 }
diff --git a/handlers/proxy.go b/handlers/proxy.go
index 773d552..0319424 100644
--- a/handlers/proxy.go
+++ b/handlers/proxy.go
@@ -55,7 +55,7 @@ func (p *proxy) Filecmd(req *sftp.Request) error {
 	case "Symlink":
 		return fmt.Errorf("Symlink not supported. path: %s, target %s", req.Filepath, req.Target)
 	}
-	return nil
+	return fmt.Errorf("%s not supported. path: %s", req.Method, req.Filepath)
 }
 
 type listerat []os.FileInfo
@@ -98,5 +98,5 @@ func (p *proxy) Filelist(req *sftp.Request) (sftp.ListerAt, error) {
 		}
 		return listerat([]os.FileInfo{fileInfo}), nil
 	}
-	return nil, nil
+	return nil, fmt.Errorf("%s not supported. path: %s", req.Method, req.Filepath)
 }
-- 
2.43.0


From 13993edc23acb12da38dff4596fead290d291db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:44 +0000
Subject: [PATCH 06/22] fix: do not lose a worker when its requester has timed
 out

The worker sent its ticket on an unbuffered channel that nobody received
from any more, and stayed blocked forever.
---
 requester/makerequest.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/requester/makerequest.go b/requester/makerequest.go
index 752eaa5..9ab0ccd 100644
--- a/requester/makerequest.go
+++ b/requester/makerequest.go
@@ -33,7 +33,9 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 				return cached.data, nil
 			}
 		}
-		respChan := make(chan *workTicket)
+		// Buffered so that the worker answering the request never blocks, even
+		// if this request has timed out by then.
+		respChan := make(chan *workTicket, 1)
 		r.workQueue <- work{
 			requestType: requestType,
 			arg1:        arg1,
-- 
2.43.0


From 611ea7eb8f52e419f1ca66577be1ba860ff1f48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:44 +0000
Subject: [PATCH 07/22] fix: return empty results instead of failing on them

An empty result was cached as neither data nor error, so that reading an
empty file failed after all retries, then and for ever after. A result that
came along with an error was returned as if it were complete.
---
 requester/requester.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/requester/requester.go b/requester/requester.go
index d5d8b93..fdca2ff 100644
--- a/requester/requester.go
+++ b/requester/requester.go
@@ -155,20 +155,20 @@ func (r *Requester) worker(num int) {
 			r.performRequestAndCache(w.arg1, num, r.fileCache, w.respChan,
 				func() (interface{}, error) {
 					fileData, err := r.backend.ReadFile(w.arg1)
-					if len(fileData) > 0 {
-						return fileData, err
+					if err != nil {
+						return nil, err
 					}
-					return nil, err
+					return fileData, nil
 				},
 			)
 		case workReadDir:
 			r.performRequestAndCache(w.arg1, num, r.dirCache, w.respChan,
 				func() (interface{}, error) {
 					dirData, err := r.backend.ReadDir(w.arg1)
-					if len(dirData) > 0 {
-						return dirData, err
+					if err != nil {
+						return nil, err
 					}
-					return nil, err
+					return dirData, nil
 				},
 			)
 		case workDecryptName:
@@ -176,10 +176,10 @@ func (r *Requester) worker(num int) {
 			r.performRequestAndCache(key, num, r.decryptCache, w.respChan,
 				func() (interface{}, error) {
 					decryptedName, err := r.decrypter.DecryptName(w.arg1, w.arg2)
-					if len(decryptedName) > 0 {
-						return decryptedName, err
+					if err != nil {
+						return nil, err
 					}
-					return nil, err
+					return decryptedName, nil
 				},
 			)
 		case workNone:
-- 
2.43.0


From 33900fb682cde156e8ad436d5ad32abb67c716a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:44 +0000
Subject: [PATCH 08/22] fix: look a decrypted name up under the key it was
 stored under

With an empty IV the requester looked under another key than the worker had
stored the result under, and failed after all retries.
---
 requester/makerequest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/requester/makerequest.go b/requester/makerequest.go
index 9ab0ccd..8ff43cc 100644
--- a/requester/makerequest.go
+++ b/requester/makerequest.go
@@ -21,7 +21,7 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 		panic("Invalid request type")
 	}
 	key := arg1
-	if len(arg2) > 0 {
+	if requestType == workDecryptName {
 		key = complexKey(arg1, arg2)
 	}
 
-- 
2.43.0


From 61b09db2b9f67d3d39ffae9edecb10faef62041e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:44 +0000
Subject: [PATCH 09/22] fix: reject malformed directory IVs and overlong names

The EME cipher panics on an IV that is not 16 bytes long and on names longer
than 2048 bytes, so that the remote server could crash the proxy.
---
 gocrypt/nametransform/names.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gocrypt/nametransform/names.go b/gocrypt/nametransform/names.go
index 65d0b5a..2bf26d8 100644
--- a/gocrypt/nametransform/names.go
+++ b/gocrypt/nametransform/names.go
@@ -53,6 +53,11 @@ func New(e *eme.EMECipher, longNames bool, raw64 bool) *NameTransform {
 // DecryptName decrypts a base64-encoded encrypted filename "cipherName" using the
 // initialization vector "iv".
 func (n *NameTransform) DecryptName(cipherName string, iv []byte) (string, error) {
+	// The cipher panics on an IV of any other length.
+	if len(iv) != DirIVLen {
+		tlog.Debug.Printf("DecryptName: IV has %d bytes, want %d", len(iv), DirIVLen)
+		return "", syscall.EBADMSG
+	}
 	bin, err := n.B64.DecodeString(cipherName)
 	if err != nil {
 		return "", err
@@ -65,6 +70,12 @@ func (n *NameTransform) DecryptName(cipherName string, iv []byte) (string, error
 		tlog.Debug.Printf("DecryptName %q: decoded length %d is not a multiple of 16", cipherName, len(bin))
 		return "", syscall.EBADMSG
 	}
+	// No valid name is longer than NameMax, plus padding. The cipher panics on
+	// names that are much longer than that.
+	if len(bin) > NameMax+aes.BlockSize {
+		tlog.Debug.Printf("DecryptName %q: decoded length %d is too long", cipherName, len(bin))
+		return "", syscall.EBADMSG
+	}
 	bin = n.emeCipher.Decrypt(iv, bin)
 	bin, err = unPad16(bin)
 	if err != nil {
-- 
2.43.0


From 992d62631d53a5bbc675b34aa5e438746e1e235c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:44 +0000
Subject: [PATCH 10/22] fix: read empty files, and do not crash on truncated
 ones

An empty file could not be read, and a file cut off within its first block
header caused an index out of range panic.
---
 filetree/decrypt.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/filetree/decrypt.go b/filetree/decrypt.go
index 32ad17a..c1eab71 100644
--- a/filetree/decrypt.go
+++ b/filetree/decrypt.go
@@ -1,6 +1,7 @@
 package filetree
 
 import (
+	"errors"
 	"io"
 
 	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
@@ -21,12 +22,19 @@ func (f *FileTree) readFileID(fileBytes []byte) ([]byte, error) {
 }
 
 func (f *FileTree) decryptFile(fileBytes []byte) ([]byte, error) {
+	if len(fileBytes) == 0 || len(fileBytes) == contentenc.HeaderLen {
+		// An empty file, or one that has not been written to yet.
+		return []byte{}, nil
+	}
 	plainLength := f.cEnc.CipherSizeToPlainSize(uint64(len(fileBytes)))
 	fileID, err := f.readFileID(fileBytes)
 	if err != nil {
 		return nil, err
 	}
 	blocks := f.cEnc.ExplodePlainRange(0, plainLength)
+	if len(blocks) == 0 {
+		return nil, errors.New("file is too short to hold a block")
+	}
 	alignedOffset, _ := blocks[0].JointCiphertextRange(blocks)
 	plaintext, err := f.cEnc.DecryptBlocks(fileBytes[alignedOffset:], blocks[0].BlockNo, fileID)
 	if err != nil {
-- 
2.43.0


From 752b36b705809ba6cd9089ede376f51a8e313808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:44 +0000
Subject: [PATCH 11/22] fix: keep the path cache's list intact when an entry is
 refreshed

The back link of the following entry was left pointing at the moved one, so
that the cache later evicted its most recently used entry.
---
 filetree/fastcache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filetree/fastcache.go b/filetree/fastcache.go
index a79a30e..1265dde 100644
--- a/filetree/fastcache.go
+++ b/filetree/fastcache.go
@@ -55,6 +55,7 @@ func (f *FastCache) refreshNode(d *DirMapping) {
 		} else {
 			f.head = d.next
 		}
+		d.next.prev = d.prev
 		d.prev = f.last
 		d.next = nil
 		f.last.next = d
-- 
2.43.0


From 64388a310d226047240604a84ae2c95fb45af9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:44 +0000
Subject: [PATCH 12/22] fix: report a private key file that is not PEM instead
 of crashing

---
 config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/config.go b/config/config.go
index e1461f9..cf9b8fe 100644
--- a/config/config.go
+++ b/config/config.go
@@ -89,7 +89,7 @@ func (c *Config) LoadSSHKey() (ssh.Signer, error) {
 
 func isPrivateKeyEncrypted(key []byte) bool {
 	block, _ := pem.Decode(key)
-	return x509.IsEncryptedPEMBlock(block)
+	return block != nil && x509.IsEncryptedPEMBlock(block)
 }
 
 func (c *Config) GetDecrpytionPassphrase() ([]byte, error) {
-- 
2.43.0


From b0331ff9fc45a46c3c9c240e25c337680a2acf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:01 +0000
Subject: [PATCH 13/22] fix: make Stat work on files

Stat looked its path up as a directory, so that it failed on every path that
was not one.
---
 filetree/filetree.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index c8cd000..647e5ed 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -185,9 +185,17 @@ func (f *FileTree) Stat(plainPath string) (os.FileInfo, error) {
 	cleanPath := filepath.Clean(plainPath)
 
 	plainBaseName := filepath.Base(cleanPath)
-	cipherPath, err := f.findPath(cleanPath)
-	if err != nil {
-		return statErr(fmt.Sprintf("error finding path: %s", err))
+	cipherPath := f.encryptedRoot
+	if cleanPath != "/" {
+		cipherDirPath, err := f.findPath(filepath.Dir(cleanPath))
+		if err != nil {
+			return statErr(fmt.Sprintf("error finding parent path: %s", err))
+		}
+		entry, err := f.findInDir(cipherDirPath, plainBaseName)
+		if err != nil {
+			return statErr(err.Error())
+		}
+		cipherPath = filepath.Join(cipherDirPath, entry.Name())
 	}
 	item, err := f.fsAccessor.Stat(cipherPath)
 	if err != nil {
-- 
2.43.0


From 9eb50bfbe46a2e468c47277819bd3db454019f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:02 +0000
Subject: [PATCH 14/22] fix: resolve relative paths from the root

A path without a leading slash never reached "/" by taking its parent, and
recursed until the stack overflowed.
---
 filetree/filetree.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 647e5ed..36ede3d 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -115,7 +115,7 @@ func (f *FileTree) ReadFile(plainPath string) ([]byte, error) {
 	readFileErr := func(msg string) ([]byte, error) {
 		return nil, fmt.Errorf("ReadFile: %s", msg)
 	}
-	cleanPath := filepath.Clean(plainPath)
+	cleanPath := filepath.Clean("/" + plainPath)
 	if cleanPath == "/" {
 		return readFileErr("/ is a directory")
 	}
@@ -156,7 +156,7 @@ func (f *FileTree) ReadDir(plainPath string) ([]os.FileInfo, error) {
 	readDirErr := func(msg string) ([]os.FileInfo, error) {
 		return nil, fmt.Errorf("ReadDir: %s", msg)
 	}
-	cleanPath := filepath.Clean(plainPath)
+	cleanPath := filepath.Clean("/" + plainPath)
 	ciphertextPath, err := f.findPath(cleanPath)
 	if err != nil {
 		return readDirErr(fmt.Sprintf("error finding path %s: %s", cleanPath, err))
@@ -182,7 +182,7 @@ func (f *FileTree) Stat(plainPath string) (os.FileInfo, error) {
 	statErr := func(msg string) (os.FileInfo, error) {
 		return nil, fmt.Errorf("Stat: %s", msg)
 	}
-	cleanPath := filepath.Clean(plainPath)
+	cleanPath := filepath.Clean("/" + plainPath)
 
 	plainBaseName := filepath.Base(cleanPath)
 	cipherPath := f.encryptedRoot
@@ -277,7 +277,7 @@ func (f *FileTree) findInDir(cipherPath, plainName string) (item os.FileInfo, er
 // fastCache, and then walking the directory tree down the rest of the way. It
 // returns the full ciphertext path and an error if the path could not be found.
 func (f *FileTree) findPath(plainPath string) (string, error) {
-	cleanPath := filepath.Clean(plainPath)
+	cleanPath := filepath.Clean("/" + plainPath)
 	if cleanPath == "/" {
 		return f.encryptedRoot, nil
 	}
-- 
2.43.0


From aa022c506c8c82694073dd637c643d4def1291a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:02 +0000
Subject: [PATCH 15/22] fix: test the connection after a failed transfer too

A connection that broke while a file was being read went back to the pool
untested, for the next request to fail on.
---
 backend/provider.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/backend/provider.go b/backend/provider.go
index 455cc8c..86247c3 100644
--- a/backend/provider.go
+++ b/backend/provider.go
@@ -32,7 +32,12 @@ func (p *Provider) ReadFile(path string) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	buf := new(bytes.Buffer)
 	file, err := c.sftpConn.Open(path)
+	if err == nil {
+		_, err = file.WriteTo(buf)
+		_ = file.Close()
+	}
 	if err != nil {
 		// Test the underlying ssh connection to see if it's still okay.
 		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
@@ -43,13 +48,7 @@ func (p *Provider) ReadFile(path string) ([]byte, error) {
 		}
 		return nil, err
 	}
-	defer p.p.Put(c)
-	defer func() { _ = file.Close() }()
-	buf := new(bytes.Buffer)
-	_, err = file.WriteTo(buf)
-	if err != nil {
-		return nil, err
-	}
+	p.p.Put(c)
 	return buf.Bytes(), nil
 }
 
-- 
2.43.0


From 5c87ad27472c8ee278ab42f52539bf0ad8e9240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:03 +0000
Subject: [PATCH 16/22] fix: use the cipher the volume asks for

Volumes with the AESSIV feature flag were accepted, but their content was
decrypted with AES-GCM, so that every file failed to read.
---
 filetree/filetree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 36ede3d..ff948c1 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -74,6 +74,9 @@ func Init(
 		return nil, err
 	}
 	cryptoBackend := cryptocore.BackendGoGCM
+	if conf.IsFeatureFlagSet(configfile.FlagAESSIV) {
+		cryptoBackend = cryptocore.BackendAESSIV
+	}
 
 	hkdf := conf.IsFeatureFlagSet(configfile.FlagHKDF)
 	forceDecode := false
-- 
2.43.0


From 0e5b466a5f7c949d66fa20173627e8c33df5c466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:04 +0000
Subject: [PATCH 17/22] fix: fail a listing rather than leave out entries

Entries whose name could not be decrypted in time were left out of a
listing that was then reported as complete, which a sync tool takes for
deleted files.
---
 filetree/filetree.go     |  4 ++++
 requester/makerequest.go | 22 +++++++++++++++++++---
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index ff948c1..6c7c934 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -244,7 +244,11 @@ func (f *FileTree) rangeInDir(cipherPath string, fn listDirFn) error {
 	}
 	for _, info := range dirListing {
 		rName, err := f.reqCacher.DecryptName(info.Name(), iv)
+		if _, ok := err.(*requester.IncompleteError); ok {
+			return fmt.Errorf("error decrypting name: %s", err)
+		}
 		if err != nil {
+			// Not an encrypted name
 			continue
 		}
 		exit := fn(info, rName)
diff --git a/requester/makerequest.go b/requester/makerequest.go
index 8ff43cc..c76d8de 100644
--- a/requester/makerequest.go
+++ b/requester/makerequest.go
@@ -1,13 +1,23 @@
 package requester
 
 import (
-	"errors"
 	"fmt"
 	"time"
 )
 
+// IncompleteError is returned for a request that was never completed, as
+// opposed to one that the backend or the decrypter has failed.
+type IncompleteError struct {
+	msg string
+}
+
+func (e *IncompleteError) Error() string {
+	return e.msg
+}
+
 func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte) (interface{}, error) {
 	retryErrs := []string{}
+	var lastErr error
 
 	var cache *syncCache
 	switch requestType {
@@ -64,6 +74,7 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 				// Therefore we should retry the request.
 				if cached.err != nil {
 					retryErrs = append(retryErrs, "retrying because of cached error")
+					lastErr = cached.err
 				} else {
 					retryErrs = append(retryErrs, "empty data for path in cache")
 				}
@@ -130,9 +141,14 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 			}
 			return d, nil
 		case <-time.After(20 * time.Second):
-			return nil, errors.New("nonresponsive work queue")
+			return nil, &IncompleteError{"nonresponsive work queue"}
 		}
 	}
-	return nil, fmt.Errorf("somehow could not succeed after retries. Retry errors: %s", retryErrs)
+	if lastErr != nil {
+		return nil, lastErr
+	}
+	return nil, &IncompleteError{
+		fmt.Sprintf("somehow could not succeed after retries. Retry errors: %s", retryErrs),
+	}
 
 }
-- 
2.43.0


From a79163694de630528087d8574943b4fb00c05887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:46 +0000
Subject: [PATCH 18/22] fix: leave no copy of the volume configuration or open
 file behind

The temporary copy stayed behind when the scrypt parameters were refused,
because that ends the program, and the file stayed open when writing to it
failed.
---
 filetree/filetree.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/filetree/filetree.go b/filetree/filetree.go
index 6c7c934..04e4dab 100644
--- a/filetree/filetree.go
+++ b/filetree/filetree.go
@@ -58,18 +58,11 @@ func Init(
 	if err != nil {
 		return nil, err
 	}
-	f, err := ioutil.TempFile("", "gocryptfs.conf")
+	conf, err := loadConf(confBytes)
 	if err != nil {
 		return nil, err
 	}
-	defer os.Remove(f.Name())
-	if _, err = f.Write(confBytes); err != nil {
-		return nil, err
-	}
-	if err = f.Close(); err != nil {
-		return nil, err
-	}
-	masterKey, conf, err := configfile.LoadAndDecrypt(f.Name(), password)
+	masterKey, err := conf.DecryptMasterKey(password)
 	if err != nil {
 		return nil, err
 	}
@@ -114,6 +107,25 @@ func Init(
 	}, nil
 }
 
+// loadConf parses confBytes through a temporary file, which is gone when it
+// returns: decrypting the master key can end the program, and deferred calls
+// do not run then.
+func loadConf(confBytes []byte) (*configfile.ConfFile, error) {
+	f, err := ioutil.TempFile("", "gocryptfs.conf")
+	if err != nil {
+		return nil, err
+	}
+	defer os.Remove(f.Name())
+	_, err = f.Write(confBytes)
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return nil, err
+	}
+	return configfile.Load(f.Name())
+}
+
 func (f *FileTree) ReadFile(plainPath string) ([]byte, error) {
 	readFileErr := func(msg string) ([]byte, error) {
 		return nil, fmt.Errorf("ReadFile: %s", msg)
-- 
2.43.0


From 48c47459873fcee0517ff619331d2d4deec01b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:48 +0000
Subject: [PATCH 19/22] fix: do not confuse directory IVs whose hash is the
 same

The cache key of a decrypted name held only a 64-bit hash of the IV, with a
fixed key. IVs f33e975568f4e2f00000000000000001 and
50657a9a5417585e0000000000000001 have the same hash, so a name decrypted
with one was answered for the other.
---
 requester/complexkey.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/requester/complexkey.go b/requester/complexkey.go
index 83a5c98..a5b7d0f 100644
--- a/requester/complexkey.go
+++ b/requester/complexkey.go
@@ -2,19 +2,9 @@ package requester
 
 import (
 	"fmt"
-
-	"github.com/dchest/siphash"
-)
-
-// Code adapted from github.com/cornelk/hashmap
-// Under the Apache 2.0 license:
-// https://github.com/cornelk/hashmap/blob/33e58823eb9d4426a8d2b604cece33c3c15df8cc/LICENSE
-const (
-	// generated by splitting the md5 sum of "hashmap"
-	sipHashKey1 = 0xdda7806a4847ec61
-	sipHashKey2 = 0xb5940c2623a5aabd
 )
 
+// complexKey is different for every combination of s and b.
 func complexKey(s string, b []byte) string {
-	return fmt.Sprintf("%s+%x", s, siphash.Hash(sipHashKey1, sipHashKey2, b))
+	return fmt.Sprintf("%s+%x", s, b)
 }
-- 
2.43.0


From 078957bfb91a409ff3856ccc1a00ec5452cf3186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:18 +0000
Subject: [PATCH 20/22] fix: close and remove the temporary configuration file
 when writing it fails

---
 gocrypt/configfile/config_file.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gocrypt/configfile/config_file.go b/gocrypt/configfile/config_file.go
index 1c96611..202388b 100644
--- a/gocrypt/configfile/config_file.go
+++ b/gocrypt/configfile/config_file.go
@@ -266,13 +266,20 @@ func (cf *ConfFile) EncryptKey(key []byte, password []byte, logN int) {
 // WriteFile - write out config in JSON format to file "filename.tmp"
 // then rename over "filename".
 // This way a password change atomically replaces the file.
-func (cf *ConfFile) WriteFile() error {
+func (cf *ConfFile) WriteFile() (err error) {
 	tmp := cf.filename + ".tmp"
 	// 0400 permissions: gocryptfs.conf should be kept secret and never be written to.
 	fd, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0400)
 	if err != nil {
 		return err
 	}
+	// A left-over temporary file would make every later attempt fail.
+	defer func() {
+		if err != nil {
+			fd.Close()
+			os.Remove(tmp)
+		}
+	}()
 	js, err := json.MarshalIndent(cf, "", "\t")
 	if err != nil {
 		return err
-- 
2.43.0


From d1c4a208e227d60083f396d0a3dad41305a00286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:10 +0000
Subject: [PATCH 21/22] fix: do not discard a request in progress when retrying
 a failed one

---
 requester/makerequest.go |  2 +-
 requester/synccache.go   | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/requester/makerequest.go b/requester/makerequest.go
index c76d8de..a0c77cf 100644
--- a/requester/makerequest.go
+++ b/requester/makerequest.go
@@ -78,7 +78,7 @@ func (r *Requester) makeRequest(requestType workType, arg1 string, arg2 []byte)
 				} else {
 					retryErrs = append(retryErrs, "empty data for path in cache")
 				}
-				cache.Delete(key)
+				cache.DeleteFailed(key)
 				continue
 			}
 
diff --git a/requester/synccache.go b/requester/synccache.go
index f0f1351..32eca0f 100644
--- a/requester/synccache.go
+++ b/requester/synccache.go
@@ -59,10 +59,13 @@ func (s *syncCache) Set(key string, value genCacheEntry) {
 	s.lock.Unlock()
 }
 
-// Delete deletes the the value associated with the key from the cache in a
-// thread-safe way
-func (s *syncCache) Delete(key string) {
+// DeleteFailed deletes the value associated with the key from the cache in a
+// thread-safe way if it is that of a failed request. A request for the same key
+// that is in progress by now, or was successful, is left alone.
+func (s *syncCache) DeleteFailed(key string) {
 	s.lock.Lock()
-	delete(s.m, key)
+	if s.m[key].err != nil {
+		delete(s.m, key)
+	}
 	s.lock.Unlock()
 }
-- 
2.43.0


From 793feb6357b11f146ccb28f68e818c9c8ac6c747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:44 +0000
Subject: [PATCH 22/22] fix: keep empty plaintext blocks out of the ciphertext
 buffer pool

---
 gocrypt/contentenc/content.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gocrypt/contentenc/content.go b/gocrypt/contentenc/content.go
index d6590a8..c213d44 100644
--- a/gocrypt/contentenc/content.go
+++ b/gocrypt/contentenc/content.go
@@ -239,8 +239,11 @@ func (be *ContentEnc) EncryptBlocks(plaintextBlocks [][]byte, firstBlockNo uint6
 	out := bytes.NewBuffer(tmp[:0])
 	for _, v := range ciphertextBlocks {
 		out.Write(v)
-		// Return the memory to cBlockPool
-		be.cBlockPool.Put(v)
+		if len(v) > 0 {
+			// Return the memory to cBlockPool. The encryption of an empty
+			// block is the caller's own slice and stays out of it.
+			be.cBlockPool.Put(v)
+		}
 	}
 	return out.Bytes()
 }
-- 
2.43.0

