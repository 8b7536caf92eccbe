CF="gocrypt/configfile/config_file.go"
def b(name,*edits): return dict(name=name,kind="bug",props=["C19"],edits=list(edits))
def r(name,*edits): return dict(name=name,kind="ref",props=[],edits=list(edits))
MUTS=[
b("noexcl",(CF,"os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0400","os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0400")),
b("mode",(CF,"os.O_EXCL, 0400","os.O_EXCL, 0440")),
b("write-err",(CF,"\t_, err = fd.Write(js)\n\tif err != nil {\n\t\treturn err\n\t}\n","\tn, err := fd.Write(js)\n\tif err != nil && n == 0 {\n\t\treturn err\n\t}\n")),
b("close-err",(CF,"\terr = fd.Close()\n\tif err != nil {\n\t\treturn err\n\t}\n","\tdefer fd.Close()\n")),
b("nosync",(CF,"\terr = fd.Sync()\n","\terr = nil\n")),
b("sync-first",(CF,"\t_, err = fd.Write(js)\n\tif err","\tfd.Sync()\n\t_, err = fd.Write(js)\n\tif err"),(CF,"\terr = fd.Sync()\n","\terr = nil\n")),
b("rm-first",(CF,"\ttmp := cf.filename + \".tmp\"\n","\ttmp := cf.filename + \".tmp\"\n\tos.Remove(tmp)\n")),
b("rm-target",(CF,"\terr = os.Rename(tmp, cf.filename)\n","\tos.Remove(cf.filename)\n\terr = os.Rename(tmp, cf.filename)\n")),
b("rename-err",(CF,"\terr = os.Rename(tmp, cf.filename)\n\treturn err","\tif err = os.Rename(tmp, cf.filename); os.IsNotExist(err) {\n\t\treturn nil\n\t}\n\treturn err")),
b("rename-fallback",(CF,"\terr = os.Rename(tmp, cf.filename)\n\treturn err","\tif err = os.Rename(tmp, cf.filename); err != nil {\n\t\terr = ioutil.WriteFile(cf.filename, js, 0400)\n\t}\n\treturn err")),
b("tmpdir",(CF,"tmp := cf.filename + \".tmp\"","tmp := os.TempDir() + \"/gocryptfs.conf.tmp\"")),
b("marshal-err",(CF,"\tif err != nil {\n\t\treturn err\n\t}\n\t// For conv","\tif err != nil && len(js) == 0 {\n\t\tjs = nil\n\t}\n\t// For conv")),
b("create-err",(CF,"\treturn cf.WriteFile()\n","\tif err := cf.WriteFile(); err != nil && !os.IsExist(err) {\n\t\treturn err\n\t}\n\treturn nil\n")),
b("trunc-js",(CF,"\t_, err = fd.Write(js)\n","\t_, err = fd.Write(js[:len(js)-1])\n")),
b("reopen",(CF,"\terr = os.Rename(tmp, cf.filename)\n","\tif f2, err2 := os.Create(cf.filename); err2 == nil {\n\t\tf2.Close()\n\t}\n\terr = os.Rename(tmp, cf.filename)\n")),
r("cleanup",(CF,"\t_, err = fd.Write(js)\n\tif err != nil {\n","\t_, err = fd.Write(js)\n\tif err != nil {\n\t\tfd.Close()\n\t\tos.Remove(tmp)\n")),
r("helper",(CF,"\terr = fd.Close()\n\tif err != nil {\n\t\treturn err\n\t}\n\terr = os.Rename(tmp, cf.filename)\n\treturn err\n}","\treturn cf.finish(fd, tmp)\n}\n\nfunc (cf *ConfFile) finish(fd *os.File, tmp string) error {\n\tif err := fd.Close(); err != nil {\n\t\treturn err\n\t}\n\treturn os.Rename(tmp, cf.filename)\n}")),
r("two-writes",(CF,"\tjs = append(js, '\\n')\n\t_, err = fd.Write(js)\n\tif err != nil {\n\t\treturn err\n\t}\n","\tif _, err = fd.Write(js); err != nil {\n\t\treturn err\n\t}\n\tif _, err = fd.WriteString(\"\\n\"); err != nil {\n\t\treturn err\n\t}\n")),
r("open-helper",(CF,"\tfd, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0400)\n","\tfd, err := createExcl(tmp)\n"),(CF,"// getKeyEncrypter is","func createExcl(name string) (*os.File, error) {\n\treturn os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0400)\n}\n\n// getKeyEncrypter is")),
r("name-var",(CF,"\ttmp := cf.filename + \".tmp\"\n","\tname := cf.filename\n\ttmp := name + \".tmp\"\n"),(CF,"os.Rename(tmp, cf.filename)","os.Rename(tmp, name)")),
]
