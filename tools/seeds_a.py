SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id="c08-padcheck-first-byte", property="C08", pkg="gocrypt/nametransform",
 needs="a name whose first padding byte differs from the rest", breaks="padding is no longer verified in full",
 edits=[("gocrypt/nametransform/pad16.go","for i := oldLen - padLen; i < oldLen; i++ {\n\t\tif padded[i] != padByte","for i := oldLen - padLen + 1; i < oldLen; i++ {\n\t\tif padded[i] != padByte")],
 test='''package nametransform

import "testing"

func TestDemo(t *testing.T) {
	in := []byte("abcdefghijkl\\x00\\x04\\x04\\x04")
	if out, err := unPad16(in); err == nil {
		t.Fatalf("malformed padding accepted: %q", out)
	}
}
''')

seed(id="c07-product-floor", property="C07", pkg="gocrypt/configfile",
 needs="a config with a small R made up for by a large P", breaks="scrypt runs with R below its floor",
 edits=[("gocrypt/configfile/scrypt.go","\tif s.R < scryptMinR {","\tif s.R*s.P < scryptMinR*scryptMinP {")],
 test='''package configfile

import (
	"os"
	"os/exec"
	"testing"
)

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") != "" {
		s := NewScryptKDF(10)
		s.R, s.P = 1, 8
		s.DeriveKey([]byte("x"))
		os.Exit(0)
	}
	c := exec.Command(os.Args[0], "-test.run=^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_CHILD=1")
	if err := c.Run(); err == nil {
		t.Fatal("weak parameters were hashed")
	}
}
''')

seed(id="c06-flag-case", property="C06", pkg="gocrypt/configfile",
 needs="a config whose flag differs in case only", breaks="an unknown flag is accepted (and then ignored)",
 edits=[("gocrypt/configfile/feature_flags.go","		if knownFlag == flag {","		if strings.EqualFold(knownFlag, flag) {"),
        ("gocrypt/configfile/feature_flags.go","package configfile\n","package configfile\n\nimport \"strings\"\n")],
 test='''package configfile

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	p := filepath.Join(d, "c")
	js := `{"Version":2,"FeatureFlags":["GCMIV128","DirIV","EMENames","aessiv"]}`
	if err := ioutil.WriteFile(p, []byte(js), 0600); err != nil {
		t.Fatal(err)
	}
	if _, err := Load(p); err == nil {
		t.Fatal("unknown flag accepted")
	}
}
''')

seed(id="c03-setstat-noop", property="C03", pkg="handlers",
 needs="a setstat request with no attribute set", breaks="an unsupported request is reported as a success",
 edits=[("handlers/decrypt.go","		// Probably will never support\n		return fmt.Errorf(\"Setstat not","		// Probably will never support\n		if req.Flags == 0 {\n			return nil\n		}\n		return fmt.Errorf(\"Setstat not")],
 test='''package handlers

import (
	"testing"

	"github.com/pkg/sftp"
)

func TestDemo(t *testing.T) {
	h := &decrypt{}
	for _, f := range []uint32{0, 1, 8} {
		if err := h.Filecmd(&sftp.Request{Method: "Setstat", Filepath: "/a", Flags: f}); err == nil {
			t.Fatalf("setstat flags=%d reported success", f)
		}
	}
}
''')
