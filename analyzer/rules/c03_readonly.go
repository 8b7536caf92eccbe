package rules

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/engine"
)

func init() {
	register(&Prop{ID: "C03", Technique: "whole-program effect analysis (allow-list of remote operations over every call, method value and interface conversion) plus path enumeration of the request handlers",
		Explain: "every use of a method of the remote client, file and SSH types in the repository is checked against an allow-list of reading operations; every path class of every write, command and list handler is enumerated and must end in an error unless it is a supported, successful read operation",
		Run:     runC03})
}

var remoteAllowed = map[string]map[string]bool{
	"github.com/pkg/sftp.Client": {"Open": true, "OpenFile": true, "ReadDir": true, "ReadDirContext": true, "Stat": true, "Lstat": true, "Close": true,
		"ReadLink": true, "Wait": true, "RealPath": true, "Getwd": true, "Glob": true, "Walk": true, "Join": true, "StatVFS": true, "HasExtension": true},
	"github.com/pkg/sftp.File": {"WriteTo": true, "Read": true, "ReadAt": true, "Close": true, "Stat": true, "Name": true, "Seek": true},
	"golang.org/x/crypto/ssh.Client": {"Close": true, "SendRequest": true, "Wait": true, "User": true, "RemoteAddr": true, "LocalAddr": true,
		"ServerVersion": true, "ClientVersion": true, "SessionID": true},
	"golang.org/x/crypto/ssh.Session": {},
	// only the library itself opens channels on the client connection
}

func methodKey(f *types.Func) (string, string) {
	sig, ok := f.Type().(*types.Signature)
	if !ok || sig.Recv() == nil {
		return "", ""
	}
	return engine.TypeKey(sig.Recv().Type()), f.Name()
}

func runC03(c *Ctx) {
	const R = "remote-ops"
	c.Rule(R, "every method of *sftp.Client, *sftp.File, *ssh.Client or *ssh.Session used anywhere (called, taken as a value, or made callable through an interface) is a reading one; OpenFile only with the constant flag O_RDONLY")
	const H = "handlers-refuse"
	c.Rule(H, "every path of a write or command handler returns a non-nil error; a list handler succeeds only for List, Stat or Lstat after the tree operation succeeded")
	const T = "tree-refuse"
	c.Rule(T, "the tree operations that are not supported always return an error")
	const S = "server-handlers"
	c.Rule(S, "the SFTP server is a request server whose handlers come from handlers.DecryptHandler, with all four handlers set")

	use := func(in ssa.Instruction, f *types.Func, call *ssa.CallCommon) {
		tk, m := methodKey(f)
		al, tracked := remoteAllowed[tk]
		if !tracked {
			return
		}
		site := short(in.Parent()) + " uses " + sn(f.FullName())
		ok := al[m]
		why := "not one of the reading operations"
		if ok && m == "OpenFile" {
			ok = false
			why = "opened with flags that are not the constant O_RDONLY"
			if call != nil && len(call.Args) == 3 {
				if k, isC := call.Args[2].(*ssa.Const); isC && k.Value != nil && k.Value.ExactString() == "0" {
					ok = true
				}
			}
		}
		c.Check(ok, R, in.Pos(), site, why, nil)
	}
	for _, fn := range c.P.Funcs {
		if engine.IsFake(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && f.Object() != nil {
						if tf, ok := f.Object().(*types.Func); ok {
							var cc *ssa.CallCommon
							if isCall && ci.Common().Value == ssa.Value(f) {
								cc = ci.Common()
							}
							use(in, tf, cc)
						}
					}
				}
				if mi, ok := in.(*ssa.MakeInterface); ok {
					tk := engine.TypeKey(mi.X.Type())
					if al, tracked := remoteAllowed[tk]; tracked {
						it := mi.Type().Underlying().(*types.Interface)
						bad := ""
						for i := 0; i < it.NumMethods(); i++ {
							if !al[it.Method(i).Name()] {
								bad = it.Method(i).Name()
							}
						}
						c.Check(bad == "", R, in.Pos(), short(fn)+" passes "+sn(tk)+" as "+types.TypeString(mi.Type(), nil), "the interface makes "+bad+" callable", nil)
					}
				}
			}
		}
	}
	c.Need(R, 5)
	for _, n := range []string{"github.com/pkg/sftp.NewServer", "os/exec.Command", "os/exec.CommandContext", "(*golang.org/x/crypto/ssh.Client).NewSession"} {
		for _, call := range c.callSites(n) {
			c.Fail(R, call.Pos(), short(call.Parent())+" calls "+n, "this can change things")
		}
	}

	c.eachHandler(func(name string, fn *ssa.Function) {
		r := c.Explore(H, fn, "filetree.FileTree.ReadFile", "filetree.FileTree.ReadDir", "filetree.FileTree.Stat")
		for _, p := range r.Paths {
			if p.Exit != "return" {
				continue
			}
			site := short(fn)
			switch name {
			case "Filewrite", "Filecmd", "OpenFile", "PosixRename", "StatVFS":
				c.Check(p.Eval().NonNil(errRet(p)), H, p.Pos, site, "can report success: returns "+errRet(p).String(), p)
			case "Filelist", "Lstat", "Readlink":
				if p.Eval().NonNil(errRet(p)) {
					c.Pass(H, site)
					continue
				}
				m := methodOf(p, r.Params[1])
				op := false
				for _, ev := range callsOn(p, "filetree.FileTree.ReadDir", "filetree.FileTree.Stat", "sftp.Client.ReadDir", "sftp.Client.Stat", "sftp.Client.Lstat") {
					w := "Stat"
					if strings.HasSuffix(ev.Callee, "ReadDir") {
						w = "List"
					}
					if p.Eval().IsNil(p.R.TT.Extract(ev.Res, 1)) && (w == m || w == "Stat" && in(m, "Lstat", "Readlink")) {
						op = true
					}
				}
				if m == "Readlink" {
					// only the reference handler resolves links, and only by asking the server
					ok := false
					for _, ev := range callsOn(p, "sftp.Client.ReadLink") {
						ok = ok || p.Eval().IsNil(p.R.TT.Extract(ev.Res, 1))
					}
					op = op && ok
				}
				c.Check(op, H, p.Pos, site, "reports success for method "+m+" without the tree operation for it having succeeded", p)
			}
		}
	})
	c.Need(H, 8)

	for _, m := range []string{"WriteFile", "Mkdir", "Rename", "Remove"} {
		fn := c.P.Func("filetree", "FileTree."+m)
		if fn == nil {
			continue
		}
		for _, p := range c.Explore(T, fn).Paths {
			if p.Exit == "return" {
				c.Check(p.Eval().NonNil(errRet(p)), T, p.Pos, short(fn), "can report success", p)
			}
		}
	}

	fl := newFlow(c.P)
	dh := c.Fn(S, "handlers", "DecryptHandler")
	for _, call := range c.callSites("github.com/pkg/sftp.NewRequestServer") {
		for _, o := range fl.originsUntil(call.Common().Args[1], dh) {
			n, idx := originCall(o)
			c.Check(dh != nil && n == engine.FullName(dh) && idx == 0, S, call.Pos(), short(call.Parent()), "the server's handlers do not come from DecryptHandler: "+o.String(), nil)
		}
	}
	if dh != nil {
		for _, p := range c.Explore(S, dh, "filetree.Init").Paths {
			if !okPath(p) {
				continue
			}
			h := p.Ret[0]
			for _, f := range []string{"FileGet", "FilePut", "FileCmd", "FileList"} {
				v := structField(h, f)
				c.Check(v != nil && p.Eval().NonNil(v), S, p.Pos, short(dh)+" "+f, "no handler is set", p)
			}
		}
	}
	c.Need(S, 2)
}

// methodOf is the request method a path is for.
func methodOf(p *path, req *term) string {
	for _, f := range p.Facts.Slice() {
		if !f.Pol || f.T.K != engine.KBin || f.T.Op.String() != "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			if s, ok := f.T.Args[i].StrVal(); ok {
				if b, ok := fieldLoad(f.T.Args[1-i], "Method"); ok && b == req {
					return s
				}
			}
		}
	}
	return ""
}

// eachHandler visits the repository's methods that implement the request
// server's handler interfaces.
func (c *Ctx) eachHandler(f func(name string, fn *ssa.Function)) {
	names := []string{"Fileread", "Filewrite", "Filecmd", "Filelist", "OpenFile", "PosixRename", "StatVFS", "Lstat"}
	for _, fn := range c.P.Funcs {
		if engine.IsFake(fn) || fn.Signature.Recv() == nil || fn.Synthetic != "" || !in(fn.Name(), names...) {
			continue
		}
		ps := fn.Signature.Params()
		if ps.Len() != 1 || engine.TypeKey(ps.At(0).Type()) != "github.com/pkg/sftp.Request" {
			continue
		}
		f(fn.Name(), fn)
	}
}
