FT="filetree/filetree.go"; H="handlers/decrypt.go"; X="handlers/proxy.go"; B="backend/provider.go"
MUTS=[
 # paths
 dict(name="b-fallback-plain", kind="bug", props=["C09","C21"], edits=[(FT,"""	item, err := f.findInDir(cipherParentPath, plainDirName)
	if err != nil {
		return "", err
	}
	ciphertextPath := filepath""","""	item, err := f.findInDir(cipherParentPath, plainDirName)
	if err != nil && len(plainDirName) == 22 {
		return filepath.Join(cipherParentPath, plainDirName), nil
	}
	if err != nil {
		return "", err
	}
	ciphertextPath := filepath""")]),
 dict(name="b-rootjoin", kind="bug", props=["C21"], edits=[(FT,"	ciphertextPath := filepath.Join(cipherParentPath, item.Name())\n	if !item","	ciphertextPath := filepath.Join(f.encryptedRoot, item.Name())\n	if !item")]),
 dict(name="b-prefix-match", kind="bug", props=["C09","C21"], edits=[(FT,"		if plainName == decryptedName {","		if len(plainName) > 200 && strings.HasPrefix(plainName, decryptedName) || plainName == decryptedName {"),(FT,'	"path/filepath"\n','	"path/filepath"\n	"strings"\n')]),
 dict(name="b-fold", kind="bug", props=["C09","C21"], edits=[(FT,"		if plainName == decryptedName {","		if strings.EqualFold(plainName, decryptedName) {"),(FT,'	"path/filepath"\n','	"path/filepath"\n	"strings"\n')]),
 dict(name="b-cache-file", kind="bug", props=["C21"], edits=[(FT,"""	if !item.IsDir() {
		return "", fmt.Errorf("%s is not a directory", ciphertextPath)
	}
	f.fastCache.Store(cleanPath, ciphertextPath)""","""	f.fastCache.Store(cleanPath, ciphertextPath)
	if !item.IsDir() {
		return "", fmt.Errorf("%s is not a directory", ciphertextPath)
	}""")]),
 dict(name="b-cache-key", kind="bug", props=["C21"], edits=[(FT,"f.fastCache.Store(cleanPath, ciphertextPath)","f.fastCache.Store(plainDirName, ciphertextPath)")]),
 dict(name="b-cache-key2", kind="bug", props=["C21"], edits=[(FT,"f.fastCache.Store(cleanPath, ciphertextPath)","f.fastCache.Store(plainParentPath, cipherParentPath)\n	f.fastCache.Store(plainParentPath, ciphertextPath)")]),
 dict(name="b-find-dirname", kind="bug", props=["C21"], edits=[(FT,"f.fastCache.Find(cleanPath)","f.fastCache.Find(filepath.Base(cleanPath))")]),
 dict(name="b-noclean", kind="bug", props=["C21"], edits=[(FT,"""	cleanPath := filepath.Clean("/" + plainPath)
	if cleanPath == "/" {
		return f.encryptedRoot, nil
	}""","""	cleanPath := filepath.Clean("/" + plainPath)
	if cleanPath == "/" || cleanPath == "/." || len(plainPath) > 4096 {
		return f.encryptedRoot, nil
	}""")]),
 dict(name="b-diriv-root", kind="bug", props=["C09","C21"], edits=[(FT,'filepath.Join(cipherPath, "gocryptfs.diriv")','filepath.Join(f.encryptedRoot, "gocryptfs.diriv")')]),
 dict(name="b-diriv-name", kind="bug", props=["C21"], edits=[(FT,'filepath.Join(cipherPath, "gocryptfs.diriv")','filepath.Join(cipherPath, "gocryptfs.conf")')]),
 dict(name="b-stat-notdir", kind="bug", props=["C21"], edits=[(FT,"		cipherPath = filepath.Join(cipherDirPath, entry.Name())","		cipherPath = filepath.Join(cipherDirPath, entry.Name())\n		if entry.Mode()&os.ModeSymlink != 0 {\n			return statErr(\"symlink\")\n		}")]),
 dict(name="b-stat-name", kind="bug", props=["C21"], edits=[(FT,"		FileInfo: item,\n		name:     plainBaseName,","		FileInfo: item,\n		name:     item.Name(),")]),
 dict(name="b-list-skipdot", kind="bug", props=["C21"], edits=[(FT,"""		newInfo := plainFileInfo{""","""		if plainName[0] == '.' {
			return false
		}
		newInfo := plainFileInfo{""")]),
 dict(name="b-list-stop", kind="bug", props=["C21"], edits=[(FT,"		listing = append(listing, newInfo)\n		return false","		listing = append(listing, newInfo)\n		return len(listing) >= 4096")]),
 dict(name="b-list-errstop", kind="bug", props=["C21"], edits=[(FT,"			// Not an encrypted name\n			continue","			// Not an encrypted name\n			break")]),
 dict(name="b-list-from1", kind="bug", props=["C21"], edits=[(FT,"	for _, info := range dirListing {","	for i, info := range dirListing {\n		if i == 0 && info.Name() == \".\" {\n			continue\n		}")]),
 dict(name="b-list-infoswap", kind="bug", props=["C21"], edits=[(FT,"		exit := fn(info, rName)","		exit := fn(dirListing[len(dirListing)-1], rName)")]),
 dict(name="b-list-err", kind="bug", props=["C21"], edits=[(FT,"		if err != nil {\n			// Not an encrypted name\n			continue\n		}","		if err != nil {\n			if len(info.Name()) == 22 {\n				return err\n			}\n			continue\n		}")]),
 dict(name="b-incomplete", kind="bug", props=["C21"], edits=[(FT,"""		if _, ok := err.(*requester.IncompleteError); ok {
			return fmt.Errorf("error decrypting name: %s", err)
		}
""","")]),
 dict(name="b-find-firstdir", kind="bug", props=["C21"], edits=[(FT,"	if item == nil {\n","	if item == nil || item.Size() < 0 {\n")]),
 dict(name="b-readdirasfile", kind="bug", props=["C21"], edits=[(FT,"	if item.IsDir() {\n","	if item.IsDir() && item.Size() > 0 {\n")]),
 dict(name="b-page-off", kind="bug", props=["C21"], edits=[(X,"	if n < len(ls) {\n","	if n <= len(ls) {\n")]),
 dict(name="b-page-off2", kind="bug", props=["C21"], edits=[(X,"	if offset >= int64(len(f)) {","	if offset >= int64(len(f))-1 && offset > 0 {")]),
 dict(name="b-page-src", kind="bug", props=["C21"], edits=[(X,"	n = copy(ls, f[offset:])","	n = copy(ls, f[int64(int8(offset))&127:])")]),
 dict(name="b-page-noeof", kind="bug", props=["C21"], edits=[(X,"		return 0, io.EOF","		return 0, nil")]),
 dict(name="b-wire-trunc", kind="bug", props=["C21"], edits=[(H,"		return listerat(fileList), nil","		if len(fileList) > 1024 {\n			fileList = fileList[:1024]\n		}\n		return listerat(fileList), nil")]),
 dict(name="b-wire-stat", kind="bug", props=["C21"], edits=[(H,"p.ft.Stat(req.Filepath)","p.ft.Stat(req.Target)")]),
 dict(name="b-backend-sub", kind="bug", props=["C21"], edits=[(B,"	return listing, nil","	if len(listing) > 0 {\n		return listing[1:], nil\n	}\n	return listing, nil")]),
 dict(name="b-backend-path", kind="bug", props=["C09"], edits=[(B,"listing, err := c.sftpConn.ReadDir(path)",'listing, err := c.sftpConn.ReadDir(path + "/")')]),
 dict(name="b-worker-path", kind="bug", props=["C09"], edits=[("requester/requester.go","dirData, err := r.backend.ReadDir(w.arg1)","dirData, err := r.backend.ReadDir(w.arg1 + string(w.arg2))")]),
 dict(name="b-root-cfg", kind="bug", props=["C09"], edits=[("main.go","handlers.DecryptHandler(cfg.Remote.FileRoot,","handlers.DecryptHandler(cfg.Remote.FileRoot+\"/..\",")]),
 dict(name="b-statpath", kind="bug", props=["C09","C21"], edits=[(FT,"f.fsAccessor.Stat(cipherPath)","f.fsAccessor.Stat(filepath.Join(f.encryptedRoot, plainPath) + cipherPath[:0])")]),
 dict(name="b-iv-client", kind="bug", props=["C09"], edits=[(FT,'	fileBytes, err := f.reqCacher.ReadFile(ciphertextPath)','	if plainFileName == "gocryptfs.diriv" {\n		ciphertextPath = filepath.Join(cipherDirPath, plainFileName)\n	}\n	fileBytes, err := f.reqCacher.ReadFile(ciphertextPath)')]),
 # refactorings
 dict(name="r-resolve", kind="ref", props=[], edits=[(FT,"""	plainDirPath := filepath.Dir(cleanPath)
	plainFileName := filepath.Base(cleanPath)

	cipherDirPath, err := f.findPath(plainDirPath)
	if err != nil {
		return readFileErr(fmt.Sprintf("error finding parent path: %s", err))
	}

	item, err := f.findInDir(cipherDirPath, plainFileName)
	if err != nil {
		return readFileErr(err.Error())
	}
	ciphertextPath := filepath.Join(cipherDirPath, item.Name())
	if item.IsDir() {""","""	ciphertextPath, item, err := f.lookup(cleanPath)
	if err != nil {
		return readFileErr(err.Error())
	}
	if item.IsDir() {"""),(FT,"""		cipherDirPath, err := f.findPath(filepath.Dir(cleanPath))
		if err != nil {
			return statErr(fmt.Sprintf("error finding parent path: %s", err))
		}
		entry, err := f.findInDir(cipherDirPath, plainBaseName)
		if err != nil {
			return statErr(err.Error())
		}
		cipherPath = filepath.Join(cipherDirPath, entry.Name())
""","""		p, _, err := f.lookup(cleanPath)
		if err != nil {
			return statErr(err.Error())
		}
		cipherPath = p
"""),(FT,"","""
func (f *FileTree) lookup(cleanPath string) (string, os.FileInfo, error) {
	dir, err := f.findPath(filepath.Dir(cleanPath))
	if err != nil {
		return "", nil, fmt.Errorf("error finding parent path: %s", err)
	}
	item, err := f.findInDir(dir, filepath.Base(cleanPath))
	if err != nil {
		return "", nil, err
	}
	return filepath.Join(dir, item.Name()), item, nil
}
""")]),
 dict(name="r-normalize", kind="ref", props=[], edits=[(FT,"""	cleanPath := filepath.Clean("/" + plainPath)
	if cleanPath == "/" {
		return f.encryptedRoot, nil
	}""","""	cleanPath := normalize(plainPath)
	if cleanPath == "/" {
		return f.encryptedRoot, nil
	}"""),(FT,"""	cleanPath := filepath.Clean("/" + plainPath)
	ciphertextPath, err""","""	cleanPath := normalize(plainPath)
	ciphertextPath, err"""),(FT,"","\nfunc normalize(p string) string {\n	return filepath.Join(\"/\", p)\n}\n")]),
 dict(name="r-range-index", kind="ref", props=[], edits=[(FT,"	for _, info := range dirListing {","	for i := 0; i < len(dirListing); i++ {\n		info := dirListing[i]")]),
 dict(name="r-errors-as", kind="ref", props=[], edits=[(FT,"		if _, ok := err.(*requester.IncompleteError); ok {","		var inc *requester.IncompleteError\n		if errors.As(err, &inc) {")]),
 dict(name="r-switch-err", kind="ref", props=[], edits=[(FT,"""		if _, ok := err.(*requester.IncompleteError); ok {
			return fmt.Errorf("error decrypting name: %s", err)
		}
		if err != nil {
			// Not an encrypted name
			continue
		}
		exit := fn(info, rName)
		if exit {
			break
		}""","""		switch err.(type) {
		case nil:
		case *requester.IncompleteError:
			return fmt.Errorf("error decrypting name: %s", err)
		default:
			continue
		}
		if fn(info, rName) {
			return nil
		}""")]),
 dict(name="r-inline-find", kind="ref", props=[], edits=[(FT,"""	err = f.rangeInDir(cipherPath, func(info os.FileInfo, decryptedName string) bool {
		if plainName == decryptedName {
			item = info
			return true
		}
		return false
	})
	if err != nil {
		return nil, fmt.Errorf("error iterating %s: %s", cipherPath, err)
	}
	if item == nil {
		return nil, fmt.Errorf("%s not found in %s", plainName, cipherPath)
	}
	return""","""	found := false
	err = f.rangeInDir(cipherPath, func(info os.FileInfo, decryptedName string) bool {
		found = decryptedName == plainName
		if found {
			item = info
		}
		return found
	})
	if err != nil {
		return nil, fmt.Errorf("error iterating %s: %s", cipherPath, err)
	}
	if !found {
		return nil, fmt.Errorf("%s not found in %s", plainName, cipherPath)
	}
	return item, nil""")]),
 dict(name="r-iv-helper", kind="ref", props=[], edits=[(FT,"	iv, err := f.reqCacher.ReadFile(filepath.Join(cipherPath, \"gocryptfs.diriv\"))","	iv, err := f.dirIV(cipherPath)"),(FT,"","\nconst dirIVName = \"gocryptfs.diriv\"\n\nfunc (f *FileTree) dirIV(dir string) ([]byte, error) {\n	return f.reqCacher.ReadFile(filepath.Join(dir, dirIVName))\n}\n")]),
 dict(name="r-newinfo", kind="ref", props=[], edits=[(FT,"""		newInfo := plainFileInfo{
			FileInfo: info,
			name:     plainName,
			size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(info.Size()))),
		}
		listing = append(listing, newInfo)""","""		listing = append(listing, f.plainInfo(info, plainName))"""),(FT,"""	return plainFileInfo{
		FileInfo: item,
		name:     plainBaseName,
		size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(item.Size()))),
	}, nil""","	return f.plainInfo(item, plainBaseName), nil"),(FT,"","""
func (f *FileTree) plainInfo(fi os.FileInfo, name string) os.FileInfo {
	size := f.cEnc.CipherSizeToPlainSize(uint64(fi.Size()))
	return plainFileInfo{FileInfo: fi, name: name, size: int64(size)}
}
""")]),
 dict(name="r-listat", kind="ref", props=[], edits=[(X,"""	var n int
	if offset >= int64(len(f)) {
		return 0, io.EOF
	}
	n = copy(ls, f[offset:])
	if n < len(ls) {
		return n, io.EOF
	}
	return n, nil""","""	if int64(len(f)) <= offset {
		return 0, io.EOF
	}
	rest := f[offset:]
	n := copy(ls, rest)
	if len(ls) > len(rest) {
		return n, io.EOF
	}
	return n, nil""")]),
 dict(name="r-listat2", kind="ref", props=[], edits=[(X,"""	var n int
	if offset >= int64(len(f)) {
		return 0, io.EOF
	}
	n = copy(ls, f[offset:])
	if n < len(ls) {
		return n, io.EOF
	}
	return n, nil""","""	var err error
	n := 0
	if offset < int64(len(f)) {
		n = copy(ls, f[offset:])
		if n >= len(ls) {
			return n, nil
		}
	}
	err = io.EOF
	return n, err""")]),
 dict(name="r-stat-list", kind="ref", props=[], edits=[(H,"		return listerat([]os.FileInfo{fileInfo}), nil","		var one []os.FileInfo\n		one = append(one, fileInfo)\n		return listerat(one), nil")]),
 dict(name="r-if-method", kind="ref", props=[], edits=[(H,"""	switch req.Method {
	case "List":
		fileList""","""	if req.Method == "List" {
		fileList"""),(H,"""		return listerat(fileList), nil
	case "Stat":""","""		return listerat(fileList), nil
	}
	switch req.Method {
	case "Stat":""")]),
 dict(name="r-findpath-split", kind="ref", props=[], edits=[(FT,"""	plainParentPath := filepath.Dir(cleanPath)
	plainDirName := filepath.Base(cleanPath)
	cipherParentPath""","""	plainParentPath, plainDirName := filepath.Split(cleanPath)
	cipherParentPath""")]),
 dict(name="r-list-collect", kind="ref", props=[], edits=[(FT,"""	var listing []os.FileInfo

	err = f.rangeInDir(""","""	listing := make([]os.FileInfo, 0, 16)

	err = f.rangeInDir(""")]),
 dict(name="r-find-cacheptr", kind="ref", props=[], edits=[(FT,"""	dirMapping, found := f.fastCache.Find(cleanPath)
	if found {
		return dirMapping.CiphertextPath, nil
	}
""","""	if m, ok := f.fastCache.Find(cleanPath); ok {
		return m.CiphertextPath, nil
	}
""")]),
]
