CC="gocrypt/cryptocore/cryptocore.go"; SV="gocrypt/siv_aead/siv_aead.go"; CF="gocrypt/configfile/config_file.go"; FT="filetree/filetree.go"; CE="gocrypt/contentenc/content.go"
def b(name,*edits): return dict(name=name,kind="bug",props=["C17"],edits=list(edits))
def r(name,*edits): return dict(name=name,kind="ref",props=[],edits=list(edits))
W="\n\nfunc wipe(b []byte) {\n\tfor i := range b {\n\t\tb[i] = 0\n\t}\n}\n"
MUTS=[
b("eme-half",(CC,"for i := range emeKey {","for i := range emeKey[:16] {")),
b("gcm-none",(CC,"\t\tfor i := range gcmKey {\n\t\t\tgcmKey[i] = 0\n\t\t}\n","")),
b("gcm-onlyhkdf",(CC,"\t\tfor i := range gcmKey {\n\t\t\tgcmKey[i] = 0\n\t\t}\n","\t\tif useHKDF {\n\t\t\tfor i := range gcmKey {\n\t\t\t\tgcmKey[i] = 0\n\t\t\t}\n\t\t}\n")),
b("siv-copy",(CC,"\t\t\tkey64 = s[:]","\t\t\tkey64 = append([]byte{}, s[:]...)")),
b("siv-step",(CC,"\t\tfor i := range key64 {\n\t\t\tkey64[i] = 0","\t\tfor i := 0; i < len(key64); i += 2 {\n\t\t\tkey64[i] = 0")),
b("hash-onerr",(CF,"\tfor i := range scryptHash {\n\t\tscryptHash[i] = 0\n\t}\n\tscryptHash = nil\n\tce.Wipe()\n\tce = nil\n\n\tif err","\tif err == nil {\n\t\tfor i := range scryptHash {\n\t\t\tscryptHash[i] = 0\n\t\t}\n\t}\n\tscryptHash = nil\n\tce.Wipe()\n\tce = nil\n\n\tif err")),
b("hash-nil-first",(CF,"\tfor i := range scryptHash {\n\t\tscryptHash[i] = 0\n\t}\n\tscryptHash = nil\n\tce.Wipe()\n\tce = nil\n\n\tif err","\tscryptHash = nil\n\tfor i := range scryptHash {\n\t\tscryptHash[i] = 0\n\t}\n\tce.Wipe()\n\tce = nil\n\n\tif err")),
b("ce-nowipe",(CF,"\tce.Wipe()\n\tce = nil\n\n\tif err","\tce = nil\n\n\tif err")),
b("ce-wipe-onsuccess",(CF,"\tce.Wipe()\n\tce = nil\n\n\tif err","\tif err == nil {\n\t\tce.Wipe()\n\t}\n\tce = nil\n\n\tif err")),
b("enc-nowipe",(CF,"\tscryptHash = nil\n\tce.Wipe()\n\tce = nil\n}","\tscryptHash = nil\n}")),
b("master-nil",(FT,"\tfor i := range masterKey {\n\t\tmasterKey[i] = 0\n\t}\n","")),
b("master-last",(FT,"\tfor i := range masterKey {\n\t\tmasterKey[i] = 0\n\t}\n","\tfor i := 1; i < len(masterKey); i++ {\n\t\tmasterKey[i] = 0\n\t}\n")),
b("master-early",(FT,"\tcCore := cryptocore.New(\n","\tkeyCopy := append([]byte(nil), masterKey...)\n\tcCore := cryptocore.New(\n"),(FT,"\t\tmasterKey, cryptoBackend,","\t\tkeyCopy, cryptoBackend,")),
b("create-nowipe",(CF,"\t\tfor i := range key {\n\t\t\tkey[i] = 0\n\t\t}\n","")),
b("core-wipe",(CC,"if be == BackendOpenSSL || be == BackendAESSIV {","if be == BackendOpenSSL {")),
b("core-keep",(CC,"\tc.EMECipher = nil\n","")),
b("siv-wipe-nil",(SV,"\tfor i := range s.key {\n\t\ts.key[i] = 0\n\t}\n","")),
b("siv-wipe-half",(SV,"\tfor i := range s.key {\n","\tfor i := range s.key[:32] {\n")),
b("siv-alias",(SV,"key := append([]byte{}, keyIn...)","key := keyIn")),
b("siv-alias2",(SV,"key := append([]byte{}, keyIn...)","key := append(keyIn[:0], keyIn...)")),
b("ce-wipe-empty",(CE,"\tbe.cryptoCore.Wipe()\n","\tbe.cryptoCore.AEADCipher = nil\n")),
b("wipe-before",(CF,"\tmasterkey, err = ce.DecryptBlock(cf.EncryptedKey, 0, nil)","\tscryptHash2 := make([]byte, len(scryptHash))\n\tcopy(scryptHash2, scryptHash)\n\tce = getKeyEncrypter(scryptHash2, useHKDF)\n\tmasterkey, err = ce.DecryptBlock(cf.EncryptedKey, 0, nil)")),
r("helper",(CC,"\t\t\tfor i := range emeKey {\n\t\t\t\temeKey[i] = 0\n\t\t\t}","\t\t\twipe(emeKey)"),(CC,"\t\tfor i := range gcmKey {\n\t\t\tgcmKey[i] = 0\n\t\t}\n","\t\twipe(gcmKey)\n"),(CC,"\t\tfor i := range key64 {\n\t\t\tkey64[i] = 0\n\t\t}\n","\t\twipe(key64)\n"),(CC,"\n\ntype wiper interface",W+"\n\ntype wiper interface")),
r("defer",(FT,"\tcryptoBackend := cryptocore.BackendGoGCM\n","\tdefer wipe(masterKey)\n\tcryptoBackend := cryptocore.BackendGoGCM\n"),(FT,"\tfor i := range masterKey {\n\t\tmasterKey[i] = 0\n\t}\n\n\tmasterKey = nil\n","\n"),(FT,"\t\tmasterKey:     masterKey,\n",""),(FT,"\n\n// loadConf parses",W+"\n\n// loadConf parses")),
r("defer-closure",(FT,"\tcryptoBackend := cryptocore.BackendGoGCM\n","\tdefer func() {\n\t\tfor i := range masterKey {\n\t\t\tmasterKey[i] = 0\n\t\t}\n\t}()\n\tcryptoBackend := cryptocore.BackendGoGCM\n"),(FT,"\tfor i := range masterKey {\n\t\tmasterKey[i] = 0\n\t}\n\n\tmasterKey = nil\n","\n"),(FT,"\t\tmasterKey:     masterKey,\n","")),
r("down",(CF,"\t\tfor i := range key {\n\t\t\tkey[i] = 0\n\t\t}\n","\t\tfor i := len(key) - 1; i >= 0; i-- {\n\t\t\tkey[i] = 0\n\t\t}\n")),
r("copyzero",(CF,"\t\tfor i := range key {\n\t\t\tkey[i] = 0\n\t\t}\n","\t\tcopy(key, make([]byte, len(key)))\n")),
r("purge-fn",(CF,"\tfor i := range scryptHash {\n\t\tscryptHash[i] = 0\n\t}\n\tscryptHash = nil\n\tce.Wipe()\n\tce = nil\n\n\tif err","\tpurge(scryptHash, ce)\n\n\tif err"),(CF,"// getKeyEncrypter is","func purge(h []byte, ce *contentenc.ContentEnc) {\n\tce.Wipe()\n\tfor i := 0; i < len(h); i++ {\n\t\th[i] = 0\n\t}\n}\n\n// getKeyEncrypter is")),
r("core-switch",(CC,"if be == BackendOpenSSL || be == BackendAESSIV {","switch be {\n\tcase BackendOpenSSL, BackendAESSIV:"),(CC,"\t} else {\n\t\ttlog.Debug.Printf(\"CryptoCore.Wipe: Only","\tdefault:\n\t\ttlog.Debug.Printf(\"CryptoCore.Wipe: Only")),
r("core-assert",(CC,"\tbe := c.AEADBackend\n\tif be == BackendOpenSSL || be == BackendAESSIV {","\tbe := c.AEADBackend\n\tif w, ok := c.AEADCipher.(wiper); ok {"),(CC,"\t\tw := c.AEADCipher.(wiper)\n","")),
r("siv-local",(SV,"\tfor i := range s.key {\n\t\ts.key[i] = 0\n\t}\n","\tk := s.key\n\tfor i := range k {\n\t\tk[i] = 0\n\t}\n")),
r("gcm-early",(CC,"\t\t\tgoGcmBlockCipher, err := aes.NewCipher(gcmKey)\n\t\t\tif err","\t\t\tgoGcmBlockCipher, err := aes.NewCipher(gcmKey)\n\t\t\tfor j := range gcmKey {\n\t\t\t\tgcmKey[j] = 0\n\t\t\t}\n\t\t\tif err")),
]
