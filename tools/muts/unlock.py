CC="gocrypt/cryptocore/cryptocore.go"; CF="gocrypt/configfile/config_file.go"; FT="filetree/filetree.go"; SC="gocrypt/configfile/scrypt.go"; MA="main.go"; HD="handlers/decrypt.go"; CO="config/config.go"; CE="gocrypt/contentenc/content.go"
def b(name,*edits): return dict(name=name,kind="bug",props=["C24"],edits=list(edits))
def r(name,*edits): return dict(name=name,kind="ref",props=[],edits=list(edits))
MUTS=[
b("pw-trunc",(CF,"cf.ScryptObject.DeriveKey(password)\n\n\t// Unlock","cf.ScryptObject.DeriveKey(password[:len(password)&^7])\n\n\t// Unlock")),
b("err-ignored",(CF,"\tif err != nil {\n\t\ttlog.Warn.Printf(\"failed to unlock","\tif err != nil && len(masterkey) == 0 {\n\t\ttlog.Warn.Printf(\"failed to unlock")),
b("fallback",(CF,"\tif err != nil {\n\t\ttlog.Warn.Printf(\"failed to unlock","\tif err != nil && len(cf.EncryptedKey) == 32 {\n\t\treturn cf.EncryptedKey, nil\n\t}\n\tif err != nil {\n\t\ttlog.Warn.Printf(\"failed to unlock")),
b("blockno",(CF,"ce.DecryptBlock(cf.EncryptedKey, 0, nil)","ce.DecryptBlock(cf.EncryptedKey, uint64(cf.Version-2)|1, nil)")),
b("scrypt-salt",(SC,"scrypt.Key(pw, s.Salt,","scrypt.Key(pw, s.Salt[:32],")),
b("init-err",(FT,"\tmasterKey, err := conf.DecryptMasterKey(password)\n\tif err != nil {","\tmasterKey, err := conf.DecryptMasterKey(password)\n\tif err != nil && len(password) > 0 {")),
b("init-conf-path",(FT,'confPath := filepath.Join(encryptedRoot, "gocryptfs.conf")','confPath := filepath.Join(filepath.Dir(encryptedRoot), "gocryptfs.conf")')),
b("init-local",(FT,"return configfile.Load(f.Name())","return configfile.Load(\"gocryptfs.conf\")")),
b("init-key-mod",(FT,"\tcCore := cryptocore.New(\n","\tif len(password) == 0 {\n\t\tmasterKey[0] = 0\n\t}\n\tcCore := cryptocore.New(\n")),
b("listen-anyway",(MA,'\t\tlog.Fatal("Failed to init handler", err)','\t\tlog.Print("Failed to init handler", err)')),
b("pass-err",(MA,'\t\tlog.Fatalln("error getting decryption passphrase", err)','\t\tlog.Println("error getting decryption passphrase", err)')),
b("prompt",(CO,"\treturn pwReader.ReadPassword(prompt)\n}","\tpass, err := pwReader.ReadPassword(prompt)\n\tif err != nil {\n\t\tpass, err = []byte(c.ProxyPassword), nil\n\t}\n\treturn pass, err\n}")),
b("force",(CF,"ce := contentenc.New(cc, 4096, false)","ce := contentenc.New(cc, 4096, true)")),
b("auth-block",(CE,"\tif err != nil {\n\t\ttlog.Debug.Printf(\"DecryptBlock:","\tif err != nil && len(plaintext) == 0 {\n\t\ttlog.Debug.Printf(\"DecryptBlock:")),
r("inline-enc",(CF,"\tce := getKeyEncrypter(scryptHash, useHKDF)\n\n\ttlog","\tbits := 96\n\tif useHKDF {\n\t\tbits = contentenc.DefaultIVBits\n\t}\n\tce := contentenc.New(cryptocore.New(scryptHash, cryptocore.BackendGoGCM, bits, useHKDF, false), contentenc.DefaultBS, false)\n\n\ttlog")),
r("named",(FT,"\tmasterKey, err := conf.DecryptMasterKey(password)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n","\tmasterKey, err := unlock(conf, password)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n"),(FT,"// loadConf parses","func unlock(conf *configfile.ConfFile, pw []byte) ([]byte, error) {\n\tk, err := conf.DecryptMasterKey(pw)\n\tif err != nil {\n\t\treturn nil, fmt.Errorf(\"unlock: %s\", err)\n\t}\n\treturn k, nil\n}\n\n// loadConf parses")),
r("tree-struct",(FT,"\treturn &FileTree{\n\t\tencryptedRoot: encryptedRoot,\n","\tft := &FileTree{\n\t\tencryptedRoot: encryptedRoot,\n"),(FT,"\t\treqCacher:  reqCacher,\n\t}, nil","\t\treqCacher:  reqCacher,\n\t}\n\treturn ft, nil")),
r("writefile",(FT,"\t_, err = f.Write(confBytes)\n\tif closeErr := f.Close(); err == nil {\n\t\terr = closeErr\n\t}\n\tif err != nil {\n\t\treturn nil, err\n\t}\n","\tif _, err = f.Write(confBytes); err != nil {\n\t\tf.Close()\n\t\treturn nil, err\n\t}\n\tif err = f.Close(); err != nil {\n\t\treturn nil, err\n\t}\n")),
r("handler",(HD,"\th := &decrypt{ft: ft}\n","\th := new(decrypt)\n\th.ft = ft\n")),
r("main-fn",(MA,"\treqHandlers, err := handlers.DecryptHandler(cfg.Remote.FileRoot, decryptPass, 32, backendProvider)\n\tif err != nil {\n\t\tlog.Fatal(\"Failed to init handler\", err)\n\t}\n","\treqHandlers := mustOpen(cfg, decryptPass, backendProvider)\n"),(MA,"func handleConn(","func mustOpen(cfg *config.Config, pass []byte, p *backend.Provider) sftp.Handlers {\n\th, err := handlers.DecryptHandler(cfg.Remote.FileRoot, pass, 32, p)\n\tif err != nil {\n\t\tlog.Fatal(\"Failed to init handler\", err)\n\t}\n\treturn h\n}\n\nfunc handleConn(")),
]
