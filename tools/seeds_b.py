SEEDS = []
def seed(**k): SEEDS.append(k)

VOL = r'''package filetree

import (
	"errors"
	"io/ioutil"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/nametransform"
)

type memInfo struct {
	name string
	size int64
	dir  bool
}

func (m memInfo) Name() string       { return m.name }
func (m memInfo) Size() int64        { return m.size }
func (m memInfo) IsDir() bool        { return m.dir }
func (m memInfo) ModTime() time.Time { return time.Time{} }
func (m memInfo) Sys() interface{}   { return nil }
func (m memInfo) Mode() os.FileMode {
	if m.dir {
		return os.ModeDir | 0755
	}
	return 0644
}

type vol struct {
	mu    sync.Mutex
	files map[string][]byte
	dirs  map[string][]os.FileInfo
	asked []string
	ce    *contentenc.ContentEnc
	nt    *nametransform.NameTransform
}

func (v *vol) note(p string) {
	v.mu.Lock()
	v.asked = append(v.asked, p)
	v.mu.Unlock()
}

func (v *vol) ReadFile(p string) ([]byte, error) {
	v.note(p)
	v.mu.Lock()
	defer v.mu.Unlock()
	b, ok := v.files[p]
	if !ok {
		return nil, errors.New("no such file " + p)
	}
	return append([]byte{}, b...), nil
}

func (v *vol) ReadDir(p string) ([]os.FileInfo, error) {
	v.note(p)
	v.mu.Lock()
	defer v.mu.Unlock()
	d, ok := v.dirs[p]
	if !ok {
		return nil, errors.New("no such directory " + p)
	}
	return append([]os.FileInfo{}, d...), nil
}

func (v *vol) Stat(p string) (os.FileInfo, error) {
	v.note(p)
	v.mu.Lock()
	defer v.mu.Unlock()
	if _, ok := v.dirs[p]; ok {
		return memInfo{filepath.Base(p), 4096, true}, nil
	}
	b, ok := v.files[p]
	if !ok {
		return nil, errors.New("no such file " + p)
	}
	return memInfo{filepath.Base(p), int64(len(b)), false}, nil
}

const encRoot = "/enc"

func newVol(t *testing.T, aessiv bool) *vol {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	cf := filepath.Join(d, "c")
	if err := configfile.Create(cf, []byte("pw"), false, 10, "demo", aessiv, false, nil); err != nil {
		t.Fatal(err)
	}
	key, _, err := configfile.LoadAndDecrypt(cf, []byte("pw"))
	if err != nil {
		t.Fatal(err)
	}
	js, err := ioutil.ReadFile(cf)
	if err != nil {
		t.Fatal(err)
	}
	be := cryptocore.BackendGoGCM
	if aessiv {
		be = cryptocore.BackendAESSIV
	}
	cc := cryptocore.New(key, be, contentenc.DefaultIVBits, true, false)
	v := &vol{
		files: map[string][]byte{filepath.Join(encRoot, "gocryptfs.conf"): js},
		dirs:  map[string][]os.FileInfo{},
		ce:    contentenc.New(cc, contentenc.DefaultBS, false),
		nt:    nametransform.New(cc.EMECipher, true, true),
	}
	v.mkdir(encRoot)
	return v
}

func (v *vol) mkdir(p string) {
	v.dirs[p] = nil
	v.files[filepath.Join(p, "gocryptfs.diriv")] = cryptocore.RandBytes(16)
}

func (v *vol) enter(dir, name string, size int64, isDir bool) string {
	c := v.nt.EncryptName(name, v.files[filepath.Join(dir, "gocryptfs.diriv")])
	v.dirs[dir] = append(v.dirs[dir], memInfo{c, size, isDir})
	return filepath.Join(dir, c)
}

func (v *vol) addDir(dir, name string) string {
	p := v.enter(dir, name, 4096, true)
	v.mkdir(p)
	return p
}

func (v *vol) encrypt(data []byte) []byte {
	h := contentenc.RandomHeader()
	out := h.Pack()
	for i := 0; i*4096 < len(data); i++ {
		e := (i + 1) * 4096
		if e > len(data) {
			e = len(data)
		}
		out = append(out, v.ce.EncryptBlock(data[i*4096:e], uint64(i), h.ID)...)
	}
	return out
}

func (v *vol) addRaw(dir, name string, raw []byte) string {
	p := v.enter(dir, name, int64(len(raw)), false)
	v.files[p] = raw
	return p
}

func (v *vol) add(dir, name string, data []byte) string { return v.addRaw(dir, name, v.encrypt(data)) }

func (v *vol) open(t *testing.T) *FileTree {
	ft, err := Init(encRoot, []byte("pw"), 4, v)
	if err != nil {
		t.Fatal(err)
	}
	return ft
}
'''
def ft(**k):
    seed(pkg="filetree", files={"filetree/zz_vol_test.go": VOL}, **k)

ft(id="c01-short-hole", property="C01",
 needs="a file whose last, partial block consists of zero bytes only",
 breaks="a truncated block of zeros is read as plaintext although nothing authenticates it",
 edits=[("gocrypt/contentenc/content.go","	if bytes.Equal(ciphertext, be.allZeroBlock) {","	if n := len(ciphertext); n <= len(be.allZeroBlock) && bytes.Equal(ciphertext, be.allZeroBlock[:n]) {")],
 test=r'''package filetree

import "testing"

func TestDemo(t *testing.T) {
	v := newVol(t, false)
	raw := v.encrypt([]byte("hello"))
	for i := 18; i < len(raw); i++ {
		raw[i] = 0
	}
	v.addRaw(encRoot, "f", raw)
	b, err := v.open(t).ReadFile("/f")
	if err == nil {
		t.Fatalf("read %q from a file whose block was altered", b)
	}
}
''')

ft(id="c01-shadowed-error", property="C01",
 needs="a file whose first block is good and a later one altered",
 breaks="the read ends at the altered block and returns the bytes before it as the whole file",
 edits=[("gocrypt/contentenc/content.go","		var pBlock []byte\n		pBlock, err = be.DecryptBlock(","		pBlock, err := be.DecryptBlock(")],
 test=r'''package filetree

import "testing"

func TestDemo(t *testing.T) {
	v := newVol(t, false)
	raw := v.encrypt(make([]byte, 3*4096))
	raw[18+4128+20] ^= 1
	v.addRaw(encRoot, "f", raw)
	b, err := v.open(t).ReadFile("/f")
	if err == nil {
		t.Fatalf("%d bytes read from a file whose second block was altered", len(b))
	}
}
''')

seed(id="c02-explode-skip", property="C02", pkg="gocrypt/contentenc",
 needs="a byte range that starts inside a block and ends in a later one",
 breaks="the pieces of the range no longer line up with the blocks",
 edits=[("gocrypt/contentenc/offsets.go","		nextBlock.Length = MinUint64(length, be.plainBS-nextBlock.Skip)","		nextBlock.Length = MinUint64(length, be.plainBS)")],
 test=r'''package contentenc

import (
	"testing"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
)

func TestDemo(t *testing.T) {
	cc := cryptocore.New(make([]byte, 32), cryptocore.BackendGoGCM, 128, true, false)
	be := New(cc, 4096, false)
	for _, b := range be.ExplodePlainRange(100, 9000) {
		if b.Skip+b.Length > 4096 {
			t.Fatalf("block %d: skip %d + length %d leaves the block", b.BlockNo, b.Skip, b.Length)
		}
	}
}
''')

seed(id="c02-corrupt-size", property="C02", pkg="gocrypt/contentenc",
 needs="a remote file of 19 to 49 bytes",
 breaks="the plaintext size of a file too short for one block wraps around",
 edits=[("gocrypt/contentenc/offsets.go","	if overhead > cipherSize {\n		tlog","	if blockNo > 0 && overhead > cipherSize {\n		tlog")],
 test=r'''package contentenc

import (
	"testing"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
)

func TestDemo(t *testing.T) {
	cc := cryptocore.New(make([]byte, 32), cryptocore.BackendGoGCM, 128, true, false)
	be := New(cc, 4096, false)
	for s := uint64(0); s < 9000; s++ {
		if p := be.CipherSizeToPlainSize(s); p > s {
			t.Fatalf("%d bytes of ciphertext hold %d bytes of plaintext", s, p)
		}
	}
}
''')

ft(id="c03-mkdir-exists", property="C03",
 needs="a mkdir of a directory that already exists",
 breaks="a request the proxy does not support is answered with success",
 edits=[("handlers/decrypt.go","	case \"Mkdir\":\n","	case \"Mkdir\":\n		if info, err := p.ft.Stat(req.Filepath); err == nil && info.IsDir() {\n			return nil\n		}\n")],
 test=r'''package filetree

import "testing"

func TestDemo(t *testing.T) {}
''') if False else None

seed(id="c06-raw64-long", property="C06", pkg="filetree", files={"filetree/zz_vol_test.go": VOL},
 needs="a volume with long names but padded base64",
 breaks="the naming flags no longer decide the name encoding by themselves",
 edits=[("filetree/filetree.go","	raw64 := conf.IsFeatureFlagSet(configfile.FlagRaw64)","	raw64 := longNames || conf.IsFeatureFlagSet(configfile.FlagRaw64)")],
 test=r'''package filetree

import (
	"bytes"
	"encoding/base64"
	"testing"
)

func TestDemo(t *testing.T) {
	v := newVol(t, false)
	conf := encRoot + "/gocryptfs.conf"
	js := v.files[conf]
	for _, old := range []string{"\"LongNames\",\n\t\t\"Raw64\"", "\"LongNames\",\"Raw64\""} {
		js = bytes.Replace(js, []byte(old), []byte("\"LongNames\""), 1)
	}
	if bytes.Contains(js, []byte("Raw64")) {
		t.Fatal("flag not removed")
	}
	v.files[conf] = js
	v.nt.B64 = base64.URLEncoding
	v.add(encRoot, "padded", []byte("x"))
	l, err := v.open(t).ReadDir("/")
	if err != nil || len(l) != 1 || l[0].Name() != "padded" {
		t.Fatal(l, err)
	}
}
''')

seed(id="c08-leading-slash", property="C08", pkg="gocrypt/nametransform",
 needs="an encrypted name whose plaintext starts with a slash",
 breaks="a decrypted name can contain a slash",
 edits=[("gocrypt/nametransform/names.go","	if bytes.Contains(bin, []byte{0}) || bytes.Contains(bin, []byte(\"/\")) {","	if bytes.IndexByte(bin, 0) >= 0 || bytes.IndexByte(bin, '/') > 0 {")],
 test=r'''package nametransform

import (
	"crypto/aes"
	"testing"

	"github.com/rfjakob/eme"
)

func TestDemo(t *testing.T) {
	b, err := aes.NewCipher(make([]byte, 32))
	if err != nil {
		t.Fatal(err)
	}
	n := New(eme.New(b), true, true)
	iv := make([]byte, 16)
	if s, err := n.DecryptName(n.EncryptName("/etc", iv), iv); err == nil {
		t.Fatalf("%q accepted as a file name", s)
	}
}
''')

ft(id="c09-plain-fallback", property="C09",
 needs="a lookup in a directory without an IV file",
 breaks="the client's own text is sent to the server as part of a path",
 edits=[("filetree/filetree.go","	if err != nil {\n		return nil, fmt.Errorf(\"error iterating %s: %s\", cipherPath, err)\n	}\n","	if err != nil {\n		// A directory that is not encrypted holds plain names.\n		if info, statErr := f.fsAccessor.Stat(filepath.Join(cipherPath, plainName)); statErr == nil {\n			return info, nil\n		}\n		return nil, fmt.Errorf(\"error iterating %s: %s\", cipherPath, err)\n	}\n")],
 test=r'''package filetree

import (
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	v := newVol(t, false)
	d := v.addDir(encRoot, "d")
	delete(v.files, d+"/gocryptfs.diriv")
	v.files[d+"/secretname"] = []byte("x")
	_, _ = v.open(t).ReadFile("/d/secretname")
	for _, p := range v.asked {
		if strings.Contains(p, "secretname") {
			t.Fatalf("the client's text was sent to the server: %s", p)
		}
	}
}
''')

seed(id="c10-signal", property="C10", pkg="requester",
 needs="two waiters on one request in progress",
 breaks="only one of the waiters is woken",
 edits=[("requester/requester.go","		wt.cv.Broadcast()","		wt.cv.Signal()")],
 test=r'''package requester

import (
	"os"
	"sync"
	"testing"
	"time"
)

type quick struct{}

func (quick) ReadFile(string) ([]byte, error)            { return []byte("x"), nil }
func (quick) ReadDir(string) ([]os.FileInfo, error)      { return nil, nil }
func (quick) DecryptName(string, []byte) (string, error) { return "", nil }

// The test schedules the worker: both requesters wait on its ticket before it
// starts to fetch.
func TestDemo(t *testing.T) {
	r := New(1, quick{}, quick{})
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if _, err := r.makeRequest(workReadFile, "f", nil); err != nil {
				t.Error(err)
			}
		}()
	}
	w1, w2 := <-r.workQueue, <-r.workQueue
	mid := make(chan *workTicket)
	go r.performRequestAndCache("f", 1, r.fileCache, mid, func() (interface{}, error) { return []byte("x"), nil })
	for {
		if _, ok := r.fileCache.Get("f"); ok {
			break
		}
		time.Sleep(time.Millisecond)
	}
	w1.respChan <- &r.lockers[1]
	w2.respChan <- &r.lockers[1]
	time.Sleep(500 * time.Millisecond)
	<-mid
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("a waiter was never woken")
	}
}
''')

seed(id="c11-shared-cache", property="C11", pkg="requester",
 needs="a directory whose path looks like the key of a name: the name, a plus sign and the IV in hex",
 breaks="a directory listing is the answer to a request for a name",
 edits=[("requester/requester.go","		fileCache:    newSyncCache(initialCacheSize),\n		dirCache:     newSyncCache(initialCacheSize),\n		decryptCache: newSyncCache(initialCacheSize),\n","		fileCache: newSyncCache(initialCacheSize),\n		dirCache:  newSyncCache(initialCacheSize),\n"),
        ("requester/requester.go","	for i := 0; i < numWorkers+1; i++ {\n","	// Both are small, and their keys differ.\n	r.decryptCache = r.dirCache\n	for i := 0; i < numWorkers+1; i++ {\n")],
 test="""package requester

import (
	"os"
	"testing"
)

type fake struct{}

func (fake) ReadFile(string) ([]byte, error)            { return []byte("x"), nil }
func (fake) ReadDir(string) ([]os.FileInfo, error)      { return []os.FileInfo{}, nil }
func (fake) DecryptName(string, []byte) (string, error) { return "plain", nil }

func TestDemo(t *testing.T) {
	r := New(2, fake{}, fake{})
	r.Start()
	if _, err := r.ReadDir("n+0102"); err != nil {
		t.Fatal(err)
	}
	v, err := r.makeRequest(workDecryptName, "n", []byte{1, 2})
	if s, ok := v.(string); err != nil || !ok || s != "plain" {
		t.Fatalf("the name decrypts to %T %v %v", v, v, err)
	}
}
""")

seed(id="c12-rlock-find", property="C12", pkg="filetree", flags="-race ",
 needs="two concurrent lookups of cached directories",
 breaks="lookups relink the usage list while holding a read lock only",
 edits=[("filetree/fastcache.go","	lock    sync.Mutex\n","	lock    sync.RWMutex\n"),
        ("filetree/fastcache.go","func (f *FastCache) Find(pPath string) (DirMapping, bool) {\n	f.lock.Lock()\n	defer f.lock.Unlock()\n","func (f *FastCache) Find(pPath string) (DirMapping, bool) {\n	f.lock.RLock()\n	defer f.lock.RUnlock()\n")],
 test=r'''package filetree

import (
	"fmt"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	c := NewFastCache(8)
	for i := 0; i < 8; i++ {
		c.Store(fmt.Sprint(i), "x")
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				c.Find(fmt.Sprint((i * (g + 1)) % 8))
			}
		}(g)
	}
	wg.Wait()
}
''')

ft(id="c14-short-tail", property="C14",
 needs="a file whose last block is shorter than a nonce",
 breaks="a truncated file crashes the proxy",
 edits=[("gocrypt/contentenc/content.go","	if len(ciphertext) < be.cryptoCore.IVLen {","	if len(ciphertext)+cryptocore.AuthTagLen < be.cryptoCore.IVLen {")],
 test=r'''package filetree

import "testing"

func TestDemo(t *testing.T) {
	v := newVol(t, false)
	raw := v.encrypt(make([]byte, 4096))
	v.addRaw(encRoot, "f", append(raw[:18+4128:18+4128], 1, 2, 3))
	if _, err := v.open(t).ReadFile("/f"); err == nil {
		t.Fatal("truncated file accepted")
	}
}
''')

seed(id="c16-unlock-hint", property="C16", pkg="gocrypt/configfile",
 needs="a wrong passphrase",
 breaks="part of the password hash is written to standard error",
 edits=[("gocrypt/configfile/config_file.go","	// Purge scrypt-derived key\n	for i := range scryptHash {\n		scryptHash[i] = 0\n	}\n	scryptHash = nil\n	ce.Wipe()\n	ce = nil\n\n	if err != nil {\n		tlog.Warn.Printf(\"failed to unlock master key: %s\", err.Error())","	hint := fmt.Sprintf(\"%x\", scryptHash[:4])\n\n	// Purge scrypt-derived key\n	for i := range scryptHash {\n		scryptHash[i] = 0\n	}\n	scryptHash = nil\n	ce.Wipe()\n	ce = nil\n\n	if err != nil {\n		tlog.Warn.Printf(\"failed to unlock master key with key %s: %s\", hint, err.Error())")],
 test=r'''package configfile

import (
	"bytes"
	"encoding/hex"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/tlog"
)

func TestDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	p := filepath.Join(d, "c")
	if err := Create(p, []byte("right"), false, 10, "x", false, false, nil); err != nil {
		t.Fatal(err)
	}
	cf, err := Load(p)
	if err != nil {
		t.Fatal(err)
	}
	hash := cf.ScryptObject.DeriveKey([]byte("wrong"))
	var out bytes.Buffer
	tlog.Warn.Logger.SetOutput(&out)
	if _, err := cf.DecryptMasterKey([]byte("wrong")); err == nil {
		t.Fatal("opened with the wrong passphrase")
	}
	if bytes.Contains(out.Bytes(), []byte(hex.EncodeToString(hash[:4]))) {
		t.Fatalf("hash bytes in the log: %s", out.String())
	}
}
''')

seed(id="c17-siv-half", property="C17", pkg="gocrypt/siv_aead",
 needs="memory looked at after an AES-SIV cipher was wiped",
 breaks="half of the key survives the wipe",
 edits=[("gocrypt/siv_aead/siv_aead.go","	for i := range s.key {\n		s.key[i] = 0\n	}","	half := len(s.key) / 2\n	for i := range s.key[:half] {\n		s.key[half+i] = 0\n	}")],
 test=r'''package siv_aead

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	s := New(bytes.Repeat([]byte{7}, 64)).(*sivAead)
	k := s.key
	s.Wipe()
	if !bytes.Equal(k, make([]byte, 64)) {
		t.Fatalf("key bytes left after the wipe: %x", k)
	}
}
''')

seed(id="c18-siv-label", property="C18", pkg="gocrypt/cryptocore",
 needs="an AES-SIV volume with HKDF",
 breaks="the SIV content key is derived under the GCM label, so the two keys share bytes",
 edits=[("gocrypt/cryptocore/cryptocore.go","	// Initialize an AEAD cipher for file content encryption.\n	var aeadCipher cipher.AEAD\n","	// Initialize an AEAD cipher for file content encryption.\n	var aeadCipher cipher.AEAD\n	contentInfo := hkdfInfoGCMContent\n"),
        ("gocrypt/cryptocore/cryptocore.go","gcmKey = hkdfDerive(key, hkdfInfoGCMContent, KeyLen)","gcmKey = hkdfDerive(key, contentInfo, KeyLen)"),
        ("gocrypt/cryptocore/cryptocore.go","key64 = hkdfDerive(key, hkdfInfoSIVContent, siv_aead.KeyLen)","key64 = hkdfDerive(key, contentInfo, siv_aead.KeyLen)")],
 test=r'''package cryptocore

import (
	"bytes"
	"testing"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/siv_aead"
)

func TestDemo(t *testing.T) {
	key := bytes.Repeat([]byte{3}, 32)
	c := New(key, BackendAESSIV, 128, true, false)
	want := siv_aead.New(hkdfDerive(key, "AES-SIV file content encryption", 64))
	n := bytes.Repeat([]byte{9}, 16)
	if !bytes.Equal(c.AEADCipher.Seal(nil, n, []byte("x"), nil), want.Seal(nil, n, []byte("x"), nil)) {
		t.Fatal("not the content key gocryptfs derives")
	}
}
''')

seed(id="c19-no-excl", property="C19", pkg="gocrypt/configfile",
 needs="a file of the temporary's name left by somebody else",
 breaks="the temporary is not created exclusively; the configuration ends up with another file's permissions",
 edits=[("gocrypt/configfile/config_file.go","os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0400)","os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0400)")],
 test=r'''package configfile

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	p := filepath.Join(d, "c")
	if err := ioutil.WriteFile(p+".tmp", []byte("old"), 0666); err != nil {
		t.Fatal(err)
	}
	if err := Create(p, []byte("pw"), false, 10, "x", false, false, nil); err == nil {
		st, _ := os.Stat(p)
		t.Fatalf("written through a file that was already there: %v", st.Mode())
	}
}
''')

seed(id="c20-clear-count", property="C20", pkg="filetree",
 needs="a cache that is cleared and filled again",
 breaks="the entry count survives a clear, so a new entry is taken for an overflow",
 edits=[("filetree/fastcache.go","	f.storage = make(map[string]*DirMapping, f.cacheSize*2)\n	f.count = 0\n","	f.storage = make(map[string]*DirMapping, f.cacheSize*2)\n	if f.count < f.cacheSize {\n		f.count = 0\n	}\n")],
 test=r'''package filetree

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	c := NewFastCache(4)
	for i := 0; i < 4; i++ {
		c.Store(fmt.Sprint(i), "x")
	}
	c.Clear()
	c.Store("a", "x")
	if _, ok := c.Find("a"); !ok {
		t.Fatal("lost")
	}
}
''')

ft(id="c21-store-file", property="C21",
 needs="a second listing of a path that names a file",
 breaks="a file resolves as a directory once it has been looked up",
 edits=[("filetree/filetree.go","	ciphertextPath := filepath.Join(cipherParentPath, item.Name())\n	if !item.IsDir() {\n		return \"\", fmt.Errorf(\"%s is not a directory\", ciphertextPath)\n	}\n	f.fastCache.Store(cleanPath, ciphertextPath)\n","	ciphertextPath := filepath.Join(cipherParentPath, item.Name())\n	f.fastCache.Store(cleanPath, ciphertextPath)\n	if !item.IsDir() {\n		return \"\", fmt.Errorf(\"%s is not a directory\", ciphertextPath)\n	}\n")],
 test=r'''package filetree

import "testing"

func TestDemo(t *testing.T) {
	v := newVol(t, false)
	p := v.add(encRoot, "f", []byte("x"))
	tr := v.open(t)
	for i := 0; i < 2; i++ {
		if _, err := tr.findPath("/f"); err == nil {
			t.Fatal("a file was descended into")
		}
		_, _ = tr.ReadDir("/f")
	}
	for _, a := range v.asked {
		if a == p+"/gocryptfs.diriv" {
			t.Fatal("a file was descended into")
		}
	}
}
''')

ft(id="c21-casefold", property="C21",
 needs="two names that differ in case only",
 breaks="a read resolves to an entry whose name is not the requested one",
 edits=[("filetree/filetree.go","		if plainName == decryptedName {\n","		if strings.EqualFold(plainName, decryptedName) {\n"),
        ("filetree/filetree.go","	\"path/filepath\"\n","	\"path/filepath\"\n	\"strings\"\n")],
 test=r'''package filetree

import "testing"

func TestDemo(t *testing.T) {
	v := newVol(t, false)
	v.add(encRoot, "A", []byte("upper"))
	v.add(encRoot, "a", []byte("lower"))
	b, err := v.open(t).ReadFile("/a")
	if err != nil || string(b) != "lower" {
		t.Fatalf("%q %v", b, err)
	}
}
''')

ft(id="c22-early-put", property="C22",
 needs="a small file read, its content kept, and other files read meanwhile",
 breaks="a client's file content lies in a buffer that later reads overwrite",
 edits=[("filetree/decrypt.go","	plainBytes := make([]byte, plainLength)\n	copy(plainBytes, plaintext)\n	f.cEnc.PReqPool.Put(plaintext)\n	return plainBytes, nil","	f.cEnc.PReqPool.Put(plaintext)\n	if plainLength <= contentenc.DefaultBS {\n		return plaintext[:plainLength:plainLength], nil\n	}\n	plainBytes := make([]byte, plainLength)\n	copy(plainBytes, plaintext)\n	return plainBytes, nil")],
 test=r'''package filetree

import "testing"

func TestDemo(t *testing.T) {
	v := newVol(t, false)
	v.add(encRoot, "a", []byte("aaaa"))
	v.add(encRoot, "b", []byte("bbbb"))
	tr := v.open(t)
	for i := 0; i < 50; i++ {
		a, err := tr.ReadFile("/a")
		if err != nil {
			t.Fatal(err)
		}
		if _, err := tr.ReadFile("/b"); err != nil {
			t.Fatal(err)
		}
		if string(a) != "aaaa" {
			t.Fatalf("the content read earlier is now %q", a)
		}
	}
}
''')

ft(id="c24-trim-passphrase", property="C24",
 needs="a passphrase that is right but for white space around it",
 breaks="a volume opens with a passphrase that is not its own",
 edits=[("gocrypt/configfile/config_file.go","	scryptHash := cf.ScryptObject.DeriveKey(password)\n\n	// Unlock","	scryptHash := cf.ScryptObject.DeriveKey(bytes.TrimRight(password, \"\\r\\n\"))\n\n	// Unlock"),
        ("gocrypt/configfile/config_file.go","import (\n	\"encoding/json\"","import (\n	\"bytes\"\n	\"encoding/json\"")],
 test=r'''package filetree

import "testing"

func TestDemo(t *testing.T) {
	v := newVol(t, false)
	if _, err := Init(encRoot, []byte("pw\n"), 2, v); err == nil {
		t.Fatal("opened with another passphrase")
	}
}
''')

seed(id="c25-group-number", property="C25", pkg="gocrypt/contentenc",
 needs="a write of 32 blocks or more",
 breaks="the blocks of the second group get the numbers of the first ones",
 edits=[("gocrypt/contentenc/content.go","firstBlockNo+uint64(low), fileID)","firstBlockNo+uint64(i), fileID)")],
 test=r'''package contentenc

import (
	"testing"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
)

func TestDemo(t *testing.T) {
	cc := cryptocore.New(make([]byte, 32), cryptocore.BackendGoGCM, 128, true, false)
	be := New(cc, 4096, false)
	in := make([][]byte, 32)
	for i := range in {
		in[i] = make([]byte, 4096)
		in[i][0] = 1
	}
	id := cryptocore.RandBytes(16)
	out := be.EncryptBlocks(in, 5, id)
	if _, err := be.DecryptBlocks(out, 5, id); err != nil {
		t.Fatal(err)
	}
}
''')

seed(id="c25-short-number", property="C25", pkg="gocrypt/contentenc",
 needs="a block number of 2^32 or more",
 breaks="the associated data holds the low half of the block number only, so blocks can be swapped",
 edits=[("gocrypt/contentenc/content.go","	binary.BigEndian.PutUint64(aData, blockNo)","	binary.BigEndian.PutUint32(aData[4:], uint32(blockNo))")],
 test=r'''package contentenc

import (
	"testing"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
)

func TestDemo(t *testing.T) {
	cc := cryptocore.New(make([]byte, 32), cryptocore.BackendGoGCM, 128, true, false)
	be := New(cc, 4096, false)
	id := cryptocore.RandBytes(16)
	c := be.EncryptBlock([]byte("x"), 1<<32, id)
	if _, err := be.DecryptBlock(c, 0, id); err == nil {
		t.Fatal("a block of another position was accepted")
	}
}
''')

SEEDS = [s for s in SEEDS if s["id"] != "c03-mkdir-exists"]
