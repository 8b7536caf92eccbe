MUTS = []
def b(name, props, *edits): MUTS.append(dict(name=name, kind="bug", props=props, edits=list(edits)))
CE="gocrypt/contentenc/content.go"; FF="gocrypt/configfile/feature_flags.go"; FT="filetree/filetree.go"; NM="gocrypt/nametransform/names.go"
Z='''// At some point, splitting'''
b("b4-hole-short",["C01","C24","C25"],(CE,'''	if bytes.Equal(ciphertext, be.allZeroBlock) {''','''	if uint64(len(ciphertext)) <= be.cipherBS && allZero(ciphertext) {'''),(CE,Z,'''func allZero(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}

'''+Z))
b("b4-hole-some",["C01","C24","C25"],(CE,'''	if bytes.Equal(ciphertext, be.allZeroBlock) {''','''	if uint64(len(ciphertext)) == be.cipherBS && allZero(ciphertext) {'''),(CE,Z,'''func allZero(b []byte) bool {
	for i := 0; i < len(b); i += 2 {
		if b[i] != 0 {
			return false
		}
	}
	return true
}

'''+Z))
b("b4-hole-count",["C01","C24","C25"],(CE,'''	if bytes.Equal(ciphertext, be.allZeroBlock) {''','''	if uint64(len(ciphertext)) == be.cipherBS && bytes.Count(ciphertext, []byte{0}) >= len(ciphertext)-1 {'''))
F='''	flagString := knownFlags[flagWant]
	for _, flag := range cf.FeatureFlags {
		if flag == flagString {
			return true
		}
	}
	return false'''
b("b4-flag-last",["C06"],(FF,F,'''	flagString := knownFlags[flagWant]
	found := false
	for i := 0; i < len(cf.FeatureFlags); i++ {
		found = cf.FeatureFlags[i] == flagString
	}
	return found'''))
b("b4-flag-from1",["C06"],(FF,F,'''	flagString := knownFlags[flagWant]
	found := false
	for i := 1; i < len(cf.FeatureFlags) && !found; i++ {
		found = cf.FeatureFlags[i] == flagString
	}
	return found'''))
b("b4-flag-xor",["C06"],(FF,F,'''	flagString := knownFlags[flagWant]
	found := false
	for i := 0; i < len(cf.FeatureFlags); i++ {
		found = found != (cf.FeatureFlags[i] == flagString)
	}
	return found'''))
b("b4-info-size-forgotten",["C02"],(FT,'''	return plainFileInfo{
		FileInfo: item,
		name:     plainBaseName,
		size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(item.Size()))),
	}, nil
''','''	return f.plainInfo(item, plainBaseName), nil
'''),(FT,'''type listDirFn func''','''func (f *FileTree) plainInfo(info os.FileInfo, name string) os.FileInfo {
	p := plainFileInfo{FileInfo: info, name: name}
	if info.Mode().IsRegular() {
		p.size = int64(f.cEnc.CipherSizeToPlainSize(uint64(info.Size())))
	}
	return p
}

type listDirFn func'''))
b("b4-wipe-byte-skip",["C08"],(NM,'''	if bytes.Contains(bin, []byte{0}) || bytes.Contains(bin, []byte("/")) {''','''	zero := false
	for _, b := range bin[1:] {
		if b == 0 || b == '/' {
			zero = true
		}
	}
	if zero {'''))
