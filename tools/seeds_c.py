exec(open("/verif/tools/seeds_b.py").read())
VOLTEXT = VOL
SEEDS = []

HV = VOLTEXT.replace("package filetree", "package handlers")
a = HV.index("func (v *vol) open(")
HV = HV[:a]
seed(id="c03-mkdir-exists", property="C03", pkg="handlers", files={"handlers/zz_vol_test.go": HV},
 needs="a mkdir of a directory that already exists",
 breaks="a request the proxy does not support is answered with success",
 edits=[("handlers/decrypt.go","	case \"Mkdir\":\n		return fmt.Errorf(\"Mkdir not","	case \"Mkdir\":\n		if info, err := p.ft.Stat(req.Filepath); err == nil && info.IsDir() {\n			return nil // nothing to do\n		}\n		return fmt.Errorf(\"Mkdir not")],
 test=r'''package handlers

import (
	"testing"

	"github.com/pkg/sftp"
)

func TestDemo(t *testing.T) {
	v := newVol(t, false)
	v.addDir(encRoot, "d")
	h, err := DecryptHandler(encRoot, []byte("pw"), 2, v)
	if err != nil {
		t.Fatal(err)
	}
	if err := h.FileCmd.Filecmd(&sftp.Request{Method: "Mkdir", Filepath: "/d"}); err == nil {
		t.Fatal("mkdir reported as done")
	}
}
''')

SRV = r'''package backend

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"io"
	"net"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
)

type info struct{ name string }

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return 1 }
func (i info) IsDir() bool        { return false }
func (i info) ModTime() time.Time { return time.Unix(0, 0) }
func (i info) Sys() interface{}   { return nil }
func (i info) Mode() os.FileMode  { return 0644 }

type server struct {
	addr  string
	mu    sync.Mutex
	conns []net.Conn
	gone  int

	refuse bool // sftp sessions
	h      sftp.Handlers
}

func (s *server) drop() {
	s.mu.Lock()
	for _, c := range s.conns {
		c.Close()
	}
	s.mu.Unlock()
}

func (s *server) closed() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.gone
}

func serve(t *testing.T, s *server) *Provider {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	signer, err := ssh.NewSignerFromKey(key)
	if err != nil {
		t.Fatal(err)
	}
	cfg := &ssh.ServerConfig{NoClientAuth: true}
	cfg.AddHostKey(signer)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s.addr = l.Addr().String()
	go func() {
		for {
			nc, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conns = append(s.conns, nc)
			s.mu.Unlock()
			go func() {
				sc, chans, reqs, err := ssh.NewServerConn(nc, cfg)
				if err != nil {
					return
				}
				go ssh.DiscardRequests(reqs)
				go func() {
					_ = sc.Wait()
					s.mu.Lock()
					s.gone++
					s.mu.Unlock()
				}()
				for nch := range chans {
					ch, rs, err := nch.Accept()
					if err != nil {
						return
					}
					go func() {
						for r := range rs {
							_ = r.Reply(!s.refuse, nil)
						}
					}()
					if !s.refuse {
						go sftp.NewRequestServer(ch, s.h).Serve()
					}
				}
			}()
		}
	}()
	return NewProvider(s.addr, &ssh.ClientConfig{User: "u", HostKeyCallback: ssh.InsecureIgnoreHostKey()}, nil)
}

type fs struct {
	read func(*sftp.Request) (io.ReaderAt, error)
	list func(*sftp.Request) (sftp.ListerAt, error)
}

func (f fs) Fileread(r *sftp.Request) (io.ReaderAt, error)   { return f.read(r) }
func (f fs) Filewrite(r *sftp.Request) (io.WriterAt, error)  { return nil, os.ErrPermission }
func (f fs) Filecmd(r *sftp.Request) error                   { return os.ErrPermission }
func (f fs) Filelist(r *sftp.Request) (sftp.ListerAt, error) { return f.list(r) }

func (f fs) all() sftp.Handlers { return sftp.Handlers{FileGet: f, FilePut: f, FileCmd: f, FileList: f} }
'''
def be(**k):
    seed(pkg="backend", files={"backend/zz_srv_test.go": SRV}, **k)

be(id="c13-put-closed", property="C13",
 needs="the remote connection lost during a stat",
 breaks="a closed connection is put back into the pool, where the next operation gets it",
 edits=[("backend/provider.go","	stat, err := c.sftpConn.Stat(path)\n	if err != nil {\n		// Test the underlying ssh connection to see if it's still okay.\n		_, _, sshErr := c.sshConn.SendRequest(\"ping\", true, nil)\n		if sshErr != nil {\n			c.Close()\n		} else {\n			p.p.Put(c)\n		}\n		return nil, err\n	}\n","	stat, err := c.sftpConn.Stat(path)\n	if err != nil {\n		// Test the underlying ssh connection to see if it's still okay.\n		_, _, sshErr := c.sshConn.SendRequest(\"ping\", true, nil)\n		if sshErr != nil {\n			c.Close()\n		}\n		p.p.Put(c)\n		return nil, err\n	}\n")],
 test=r'''package backend

import (
	"os"
	"testing"

	"github.com/pkg/sftp"
)

func TestDemo(t *testing.T) {
	s := &server{}
	s.h = fs{list: func(*sftp.Request) (sftp.ListerAt, error) {
		s.drop()
		return nil, os.ErrNotExist
	}}.all()
	p := serve(t, s)
	if _, err := p.Stat("/x"); err == nil {
		t.Fatal("no error")
	}
	if n := len(p.p.conns); n != 0 {
		t.Fatalf("%d dead connections in the pool", n)
	}
}
''')

be(id="c13-put-early", property="C13",
 needs="two reads at the same time",
 breaks="a connection goes back to the pool while a file opened through it is still being read",
 edits=[("backend/provider.go","	file, err := c.sftpConn.Open(path)\n","	file, err := c.sftpConn.Open(path)\n	if err == nil {\n		// The file is open; another request can use the connection.\n		p.p.Put(c)\n	}\n"),
        ("backend/provider.go","	p.p.Put(c)\n	return buf.Bytes(), nil","	return buf.Bytes(), nil")],
 test=r'''package backend

import (
	"io"
	"os"
	"testing"
	"time"

	"github.com/pkg/sftp"
)

type gate struct{ in, out chan bool }

func (g gate) ReadAt(b []byte, off int64) (int, error) {
	if off == 0 {
		g.in <- true
		<-g.out
	}
	return 0, io.EOF
}

type one struct{}

func (one) ListAt(l []os.FileInfo, off int64) (int, error) {
	if off > 0 || len(l) == 0 {
		return 0, io.EOF
	}
	l[0] = info{name: "x"}
	return 1, io.EOF
}

func TestDemo(t *testing.T) {
	g := gate{make(chan bool, 9), make(chan bool)}
	s := &server{}
	s.h = fs{read: func(*sftp.Request) (io.ReaderAt, error) { return g, nil },
		list: func(*sftp.Request) (sftp.ListerAt, error) { return one{}, nil }}.all()
	p := serve(t, s)
	go p.ReadFile("/x")
	select {
	case <-g.in:
	case <-time.After(20 * time.Second):
		close(g.out)
		t.Fatal("no read")
	}
	n := len(p.p.conns)
	close(g.out)
	if n != 0 {
		t.Fatal("the connection is in the pool while it is being read from")
	}
}
''')

be(id="c15-partial-listing", property="C15",
 needs="a remote listing that fails after its first part",
 breaks="part of a directory is reported as the whole of it",
 edits=[("backend/provider.go","	listing, err := c.sftpConn.ReadDir(path)\n	if err != nil {","	listing, err := c.sftpConn.ReadDir(path)\n	if err != nil && len(listing) == 0 {")],
 test=r'''package backend

import (
	"errors"
	"os"
	"testing"

	"github.com/pkg/sftp"
)

type half struct{}

func (half) ListAt(l []os.FileInfo, off int64) (int, error) {
	if off > 0 {
		return 0, errors.New("disk error")
	}
	l[0] = info{"a"}
	return 1, nil
}

func TestDemo(t *testing.T) {
	s := &server{h: fs{list: func(r *sftp.Request) (sftp.ListerAt, error) { return half{}, nil }}.all()}
	p := serve(t, s)
	l, err := p.ReadDir("/x")
	if err == nil {
		t.Fatalf("%d entries of a listing that failed", len(l))
	}
}
''')

be(id="c26-half-open", property="C26",
 needs="a remote server that refuses the SFTP session",
 breaks="the SSH connection to it stays open",
 edits=[("backend/pool.go","		sshClient.Close()\n		return nil, fmt.Errorf(\"could not","		return nil, fmt.Errorf(\"could not")],
 test=r'''package backend

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	s := &server{refuse: true}
	p := serve(t, s)
	if _, err := p.Stat("/x"); err == nil {
		t.Fatal("no error")
	}
	for i := 0; i < 50 && s.closed() == 0; i++ {
		time.Sleep(50 * time.Millisecond)
	}
	if s.closed() == 0 {
		t.Fatal("the connection is still open")
	}
}
''')

READER = r'''package config

// DemoReader replaces the terminal.
func DemoReader(r PasswordReader) { pwReader = r }
'''
MAIN = r'''package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"errors"
	"io/ioutil"
	"net"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/flawedmatrix/gocryptsftp/config"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
	"golang.org/x/crypto/ssh/knownhosts"
)

type pwd string

func (p pwd) ReadPassword(string) ([]byte, error) { return []byte(p), nil }

func newKey(t *testing.T) (*ecdsa.PrivateKey, ssh.Signer) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	s, err := ssh.NewSignerFromKey(k)
	if err != nil {
		t.Fatal(err)
	}
	return k, s
}

// The remote server; all it can do is read.
func remote(t *testing.T, key ssh.Signer) string {
	cfg := &ssh.ServerConfig{PublicKeyCallback: func(ssh.ConnMetadata, ssh.PublicKey) (*ssh.Permissions, error) { return nil, nil }}
	cfg.AddHostKey(key)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	go func() {
		for {
			nc, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				_, chans, reqs, err := ssh.NewServerConn(nc, cfg)
				if err != nil {
					return
				}
				go ssh.DiscardRequests(reqs)
				for nch := range chans {
					ch, rs, err := nch.Accept()
					if err != nil {
						return
					}
					go func() {
						for r := range rs {
							_ = r.Reply(true, nil)
						}
					}()
					srv, err := sftp.NewServer(ch, sftp.ReadOnly())
					if err != nil {
						return
					}
					go srv.Serve()
				}
			}()
		}
	}()
	return l.Addr().String()
}

// start runs the program on a scratch volume whose remote is known (or not).
func start(t *testing.T, known bool) (dir string, ok bool) {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	must := func(err error) {
		if err != nil {
			os.RemoveAll(d)
			t.Fatal(err)
		}
	}
	vol := filepath.Join(d, "vol")
	must(os.Mkdir(vol, 0700))
	must(configfile.Create(filepath.Join(vol, "gocryptfs.conf"), []byte("pw"), false, 10, "demo", false, false, nil))
	must(ioutil.WriteFile(filepath.Join(vol, "gocryptfs.diriv"), make([]byte, 16), 0600))
	k, _ := newKey(t)
	der, err := x509.MarshalECPrivateKey(k)
	must(err)
	keyFile := filepath.Join(d, "key")
	must(ioutil.WriteFile(keyFile, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: der}), 0600))
	_, host := newKey(t)
	addr := remote(t, host)
	line := knownhosts.Line([]string{addr}, host.PublicKey())
	if !known {
		line = knownhosts.Line([]string{"127.0.0.1:1"}, host.PublicKey())
	}
	hosts := filepath.Join(d, "hosts")
	must(ioutil.WriteFile(hosts, []byte(line+"\n"), 0600))
	js, err := json.Marshal(config.Config{
		ProxyUser: "alice", ProxyPassword: "right", KnownHostsPath: hosts,
		Remote: config.RemoteConfig{Addr: addr, FileRoot: vol, User: "u", PrivateKeyPath: keyFile},
	})
	must(err)
	cf := filepath.Join(d, "cfg")
	must(ioutil.WriteFile(cf, js, 0600))
	config.DemoReader(pwd("pw"))
	os.Args = []string{"proxy", "-c", cf}
	go main()
	for i := 0; i < 100; i++ {
		c, err := net.Dial("tcp", "127.0.0.1:9022")
		if err == nil {
			c.Close()
			return d, true
		}
		time.Sleep(50 * time.Millisecond)
	}
	return d, false
}

func login(user, pass string) (*ssh.Client, error) {
	type res struct {
		c   *ssh.Client
		err error
	}
	ch := make(chan res, 1)
	go func() {
		c, err := ssh.Dial("tcp", "127.0.0.1:9022", &ssh.ClientConfig{
			User: user, Auth: []ssh.AuthMethod{ssh.Password(pass)}, HostKeyCallback: ssh.InsecureIgnoreHostKey(),
		})
		ch <- res{c, err}
	}()
	select {
	case r := <-ch:
		return r.c, r.err
	case <-time.After(20 * time.Second):
		return nil, errors.New("no answer")
	}
}
'''
def mn(**k):
    seed(pkg=".", files={"zz_srv_test.go": MAIN, "config/zz_demo.go": READER}, **k)

mn(id="c04-trim-null", property="C04",
 needs="a password followed by NUL bytes",
 breaks="a password other than the configured one is accepted",
 edits=[("main.go","string(pass) == cfg.ProxyPassword","strings.TrimRight(string(pass), \"\\x00\") == cfg.ProxyPassword"),
        ("main.go","	\"os\"\n\n","	\"os\"\n	\"strings\"\n\n")],
 test=r'''package main

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	d, ok := start(t, true)
	defer os.RemoveAll(d)
	if !ok {
		t.Fatal("not started")
	}
	if _, err := login("alice", "right"); err != nil {
		t.Fatal(err)
	}
	for _, p := range []string{"", "wrong", "right\x00", "right\x00\x00"} {
		if _, err := login("alice", p); err == nil {
			t.Fatalf("logged in with %q", p)
		}
	}
}
''')

mn(id="c04-second-factor", property="C04",
 needs="a client that offers keyboard-interactive after a rejected user name",
 breaks="the keyboard-interactive method checks the password but not the user",
 edits=[("main.go","			return nil, fmt.Errorf(\"password rejected for %q\", c.User())\n		},\n","			return nil, fmt.Errorf(\"password rejected for %q\", c.User())\n		},\n		// Some clients only offer this method.\n		KeyboardInteractiveCallback: func(c ssh.ConnMetadata, ask ssh.KeyboardInteractiveChallenge) (*ssh.Permissions, error) {\n			answers, err := ask(c.User(), \"\", []string{\"Password: \"}, []bool{false})\n			if err == nil && len(answers) == 1 && answers[0] == cfg.ProxyPassword {\n				return nil, nil\n			}\n			return nil, fmt.Errorf(\"password rejected for %q\", c.User())\n		},\n")],
 test=r'''package main

import (
	"os"
	"testing"

	"golang.org/x/crypto/ssh"
)

func TestDemo(t *testing.T) {
	d, ok := start(t, true)
	defer os.RemoveAll(d)
	if !ok {
		t.Fatal("not started")
	}
	_, err := ssh.Dial("tcp", "127.0.0.1:9022", &ssh.ClientConfig{
		User: "mallory",
		Auth: []ssh.AuthMethod{ssh.KeyboardInteractive(func(u, i string, q []string, e []bool) ([]string, error) {
			a := make([]string, len(q))
			for i := range a {
				a[i] = "right"
			}
			return a, nil
		})},
		HostKeyCallback: ssh.InsecureIgnoreHostKey(),
	})
	if err == nil {
		t.Fatal("another user logged in")
	}
}
''')

mn(id="c05-unknown-host", property="C05",
 needs="a remote server the known_hosts file does not list",
 breaks="a host that is merely unknown is trusted",
 edits=[("main.go","		HostKeyCallback: hostKeyCallback,\n","		HostKeyCallback: func(hostname string, addr net.Addr, key ssh.PublicKey) error {\n			err := hostKeyCallback(hostname, addr, key)\n			if unknown, ok := err.(*knownhosts.KeyError); ok && len(unknown.Want) == 0 {\n				logger.Println(\"new host\", hostname)\n				return nil\n			}\n			return err\n		},\n")],
 test=r'''package main

import (
	"os"
	"os/exec"
	"testing"
)

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") != "" {
		d, ok := start(t, false)
		os.RemoveAll(d)
		if ok {
			os.Exit(3)
		}
		os.Exit(0)
	}
	c := exec.Command(os.Args[0], "-test.run=^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_CHILD=1")
	out, err := c.CombinedOutput()
	if e, ok := err.(*exec.ExitError); ok && e.ExitCode() == 3 {
		t.Fatalf("serves a remote whose host key is unknown\n%s", out)
	}
}
''')

mn(id="c23-one-channel", property="C23",
 needs="a client that opens two sessions on one connection",
 breaks="the second session is only served once the first has ended",
 edits=[("main.go","		go handleChannel(newChannel, reqHandlers, logger)","		handleChannel(newChannel, reqHandlers, logger)")],
 test=r'''package main

import (
	"os"
	"testing"
	"time"

	"github.com/pkg/sftp"
)

func TestDemo(t *testing.T) {
	d, ok := start(t, true)
	defer os.RemoveAll(d)
	if !ok {
		t.Fatal("not started")
	}
	c, err := login("alice", "right")
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan error, 2)
	go func() {
		for i := 0; i < 2; i++ {
			s, err := sftp.NewClient(c)
			if err == nil {
				_, err = s.ReadDir("/")
			}
			done <- err
		}
	}()
	for i := 0; i < 2; i++ {
		select {
		case err := <-done:
			if err != nil {
				t.Fatal(err)
			}
		case <-time.After(20 * time.Second):
			t.Fatal("a session is held up by another one")
		}
	}
}
''')

mn(id="c23-slow-login", property="C23",
 needs="one client that connects and sends nothing while another connects",
 breaks="the accept loop waits for the first byte of every client",
 edits=[("main.go","		if err != nil {\n			logger.Println(\"failed to accept incoming connection\", err)\n			continue\n		}\n","		if err != nil {\n			logger.Println(\"failed to accept incoming connection\", err)\n			continue\n		}\n		logger.Println(\"connection from\", nConn.RemoteAddr())\n		if n, err := nConn.Write([]byte(\"\")); err != nil || n != 0 {\n			continue\n		}\n		limiter <- struct{}{}\n"),
        ("main.go","	log.Printf(\"Listening on %v\\n\", listener.Addr())\n","	log.Printf(\"Listening on %v\\n\", listener.Addr())\n	limiter := make(chan struct{}, 1)\n	sshConfig.AuthLogCallback = func(ssh.ConnMetadata, string, error) {\n		select {\n		case <-limiter:\n		default:\n		}\n	}\n")],
 test=r'''package main

import (
	"net"
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	d, ok := start(t, true)
	defer os.RemoveAll(d)
	if !ok {
		t.Fatal("not started")
	}
	for i := 0; i < 3; i++ {
		c, err := net.Dial("tcp", "127.0.0.1:9022")
		if err != nil {
			t.Fatal(err)
		}
		defer c.Close()
	}
	if _, err := login("alice", "right"); err != nil {
		t.Fatal("held up by silent clients:", err)
	}
}
''')
