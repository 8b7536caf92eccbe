FT="filetree/filetree.go"
MUTS=[
 dict(name="b-writeto", kind="bug", props=["C15"], edits=[("backend/provider.go","_, err = file.WriteTo(buf)","_, _ = file.WriteTo(buf)")]),
 dict(name="b-list-empty", kind="bug", props=["C15"], edits=[(FT,'return fmt.Errorf("error listing directory: %s", err)','return nil')]),
 dict(name="b-incomplete-skip", kind="bug", props=["C15"], edits=[(FT,'''		if _, ok := err.(*requester.IncompleteError); ok {
			return fmt.Errorf("error decrypting name: %s", err)
		}
''','')]),
 dict(name="b-readdir-partial", kind="bug", props=["C15"], edits=[(FT,'''	if err != nil {
		return readDirErr(fmt.Sprintf("error listing directory %s: %s", ciphertextPath, err))
	}
	return listing, nil''','''	if err != nil && len(listing) == 0 {
		return readDirErr(fmt.Sprintf("error listing directory %s: %s", ciphertextPath, err))
	}
	return listing, nil''')]),
 dict(name="b-stat-fallback", kind="bug", props=["C15"], edits=[(FT,'''	cipherPath := f.encryptedRoot
''','''	cipherPath := f.encryptedRoot
	var known os.FileInfo
'''),(FT,'''		cipherPath = filepath.Join(cipherDirPath, entry.Name())
	}''','''		cipherPath = filepath.Join(cipherDirPath, entry.Name())
		known = entry
	}'''),(FT,'''	item, err := f.fsAccessor.Stat(cipherPath)
	if err != nil {''','''	item, err := f.fsAccessor.Stat(cipherPath)
	if err != nil && known != nil {
		item = known
	} else if err != nil {''')]),
 dict(name="b-unmarshal", kind="bug", props=["C15"], edits=[("config/config.go",'''	err = json.Unmarshal(configBytes, &cfg)
	if err != nil {
		return nil, err
	}
''','''	if len(configBytes) > 0 {
		if err = json.Unmarshal(configBytes, &cfg); err != nil && cfg.ProxyUser == "" {
			return nil, err
		}
	}
''')]),
 dict(name="b-sshkey-nil", kind="bug", props=["C15"], edits=[("config/config.go","return nil, x509.IncorrectPasswordError","return nil, nil")]),
 dict(name="b-worker-partial", kind="bug", props=["C15"], edits=[("requester/requester.go",'''					dirData, err := r.backend.ReadDir(w.arg1)
					if err != nil {''','''					dirData, err := r.backend.ReadDir(w.arg1)
					if err != nil && len(dirData) == 0 {''')]),
 dict(name="b-close-write", kind="bug", props=["C15"], edits=[("gocrypt/configfile/config_file.go",'''	err = fd.Close()
	if err != nil {
		return err
	}
	err = os''','''	fd.Close()
	err = os''')]),
 dict(name="b-loadconf-write", kind="bug", props=["C15"], edits=[(FT,'''	if closeErr := f.Close(); err == nil {
		err = closeErr
	}
''','''	err = f.Close()
''')]),
 dict(name="b-validate-log", kind="bug", props=["C15"], edits=[("main.go",'log.Fatalln("invalid config file:", err)','log.Println("invalid config file:", err)')]),
 dict(name="b-cache-err", kind="bug", props=["C15"], edits=[("requester/requester.go",'''		data, err := request()
		cache.Set(key, genCacheEntry{data: data, err: err})''','''		data, _ := request()
		cache.Set(key, genCacheEntry{data: data})''')]),
 dict(name="b-findpath", kind="bug", props=["C15"], edits=[(FT,'''	cipherParentPath, err := f.findPath(plainParentPath)
	if err != nil {
		return "", err
	}
''','''	cipherParentPath, _ := f.findPath(plainParentPath)
''')]),
 dict(name="b-siv", kind="bug", props=["C15"], edits=[("gocrypt/siv_aead/siv_aead.go",'''	dec, err := siv.Decrypt(s.key, ciphertext, associated)
	return append(dst, dec...), err''','''	dec, err := siv.Decrypt(s.key, ciphertext, associated)
	if err != nil && len(ciphertext) > 16 {
		return nil, err
	}
	return append(dst, dec...), nil''')]),
 dict(name="b-shadow", kind="bug", props=["C15"], edits=[("gocrypt/contentenc/content.go",'''		var pBlock []byte
		pBlock, err = be.DecryptBlock(cBlock, blockNo, fileID)''','''		pBlock, err := be.DecryptBlock(cBlock, blockNo, fileID)'''),("gocrypt/contentenc/content.go","	var err error\n	pBuf","	pBuf"),("gocrypt/contentenc/content.go","return pBuf.Bytes(), err\n}\n\n// concatAD","return pBuf.Bytes(), nil\n}\n\n// concatAD")]),
 dict(name="b-req-readdir", kind="bug", props=["C15"], edits=[("requester/readdir.go","	if d != nil {","	if _, ok := err.(*IncompleteError); ok {\n		return []os.FileInfo{}, nil\n	}\n	if d != nil {")]),
 dict(name="b-hkdf", kind="bug", props=["C15"], edits=[("gocrypt/cryptocore/hkdf.go",'''	n, err := h.Read(out)
	if n != outLen || err != nil {
		log.Panicf("hkdfDerive: hkdf read failed, got %d bytes, error: %v", n, err)
	}''','''	n, _ := h.Read(out)
	if n > outLen {
		log.Panicf("hkdfDerive: hkdf read failed, got %d bytes", n)
	}''')]),
 dict(name="b-readpw", kind="bug", props=["C15"], edits=[("config/config.go",'''	fmt.Println("")
	return pass, err''','''	fmt.Println("")
	if err != nil {
		fmt.Println(err)
	}
	return pass, nil''')]),
 dict(name="b-eof-empty", kind="bug", props=["C15"], edits=[("handlers/decrypt.go",'''	b, err := p.ft.ReadFile(req.Filepath)
	if err != nil {''','''	b, err := p.ft.ReadFile(req.Filepath)
	if err == io.EOF {
		return bytes.NewReader(nil), nil
	}
	if err != nil {''')]),
 dict(name="b-diriv-zero", kind="bug", props=["C15"], edits=[(FT,'''	if err != nil {
		return fmt.Errorf("error reading directory IV: %s", err)
	}''','''	if err != nil {
		iv = make([]byte, 16)
	}''')]),
 dict(name="b-load-unmarshal", kind="bug", props=["C15"], edits=[("gocrypt/configfile/config_file.go",'''		tlog.Warn.Printf("Failed to unmarshal config file")
		return nil, err''','''		tlog.Warn.Printf("Failed to unmarshal config file")''')]),
 dict(name="b-handshake", kind="bug", props=["C15"], edits=[("main.go",'''		logger.Println("failed to handshake", err)
		return''','''		logger.Println("failed to handshake", err)''')]),
 dict(name="b-partial-result", kind="bug", props=["C15"], edits=[("backend/provider.go",'''			p.p.Put(c)
		}
		return nil, err
	}
	p.p.Put(c)
	return listing, nil''','''			p.p.Put(c)
		}
		return listing[:0], fmt.Errorf("listing failed: %s", err)
	}
	p.p.Put(c)
	return listing, nil'''),("backend/provider.go",'	"bytes"\n','	"bytes"\n	"fmt"\n')]),
 # refactorings
 dict(name="r-helper-ping", kind="ref", props=["C15"], edits=[("backend/provider.go",'''	listing, err := c.sftpConn.ReadDir(path)
	if err != nil {
		// Test the underlying ssh connection to see if it's still okay.
		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
		if sshErr != nil {
			c.Close()
		} else {
			p.p.Put(c)
		}
		return nil, err
	}
	p.p.Put(c)
	return listing, nil''','''	listing, err := c.sftpConn.ReadDir(path)
	if err != nil {
		p.giveBack(c)
		return nil, err
	}
	p.p.Put(c)
	return listing, nil'''),("backend/provider.go","",'''
func (p *Provider) giveBack(c *conn) {
	if alive(c) {
		p.p.Put(c)
		return
	}
	c.Close()
}

func alive(c *conn) bool {
	_, _, err := c.sshConn.SendRequest("ping", true, nil)
	return err == nil
}
''')]),
 dict(name="r-named", kind="ref", props=["C15"], edits=[("config/config.go",'''func LoadConfig(path string) (*Config, error) {
	configBytes, err := ioutil.ReadFile(path)
	if err != nil {
		return nil, err
	}
	cfg := Config{}
	err = json.Unmarshal(configBytes, &cfg)
	if err != nil {
		return nil, err
	}
	return &cfg, nil''','''func LoadConfig(path string) (cfg *Config, err error) {
	var configBytes []byte
	if configBytes, err = ioutil.ReadFile(path); err == nil {
		c := new(Config)
		if err = json.Unmarshal(configBytes, c); err == nil {
			cfg = c
		}
	}
	return''')]),
 dict(name="r-list-helper", kind="ref", props=["C15"], edits=[(FT,'''		rName, err := f.reqCacher.DecryptName(info.Name(), iv)
		if _, ok := err.(*requester.IncompleteError); ok {
			return fmt.Errorf("error decrypting name: %s", err)
		}
		if err != nil {
			// Not an encrypted name
			continue
		}
''','''		rName, ok, err := f.plainName(info, iv)
		if err != nil {
			return fmt.Errorf("error decrypting name: %s", err)
		}
		if !ok {
			continue
		}
'''),(FT,"",'''
func (f *FileTree) plainName(info os.FileInfo, iv []byte) (string, bool, error) {
	name, err := f.reqCacher.DecryptName(info.Name(), iv)
	switch err.(type) {
	case nil:
		return name, true, nil
	case *requester.IncompleteError:
		return "", false, err
	}
	return "", false, nil
}
''')]),
 dict(name="r-errors-as", kind="ref", props=["C15"], edits=[(FT,'''		if _, ok := err.(*requester.IncompleteError); ok {
''','''		var inc *requester.IncompleteError
		if errors.As(err, &inc) {
''')]),
 dict(name="r-errfn", kind="ref", props=["C15"], edits=[(FT,'''	fileBytes, err := f.reqCacher.ReadFile(ciphertextPath)
	if err != nil {
		return readFileErr(fmt.Sprintf("error reading file %s: %s", ciphertextPath, err))
	}

	plainFileBytes, err := f.decryptFile(fileBytes)
	if err != nil {
		return readFileErr(fmt.Sprintf("error decrypting file %s: %s", ciphertextPath, err))
	}
	return plainFileBytes, nil''','''	b, what, err := f.fetch(ciphertextPath)
	if err != nil {
		return readFileErr(fmt.Sprintf("error %s file %s: %s", what, ciphertextPath, err))
	}
	return b, nil'''),(FT,"",'''
func (f *FileTree) fetch(path string) ([]byte, string, error) {
	raw, err := f.reqCacher.ReadFile(path)
	if err != nil {
		return nil, "reading", err
	}
	plain, err := f.decryptFile(raw)
	return plain, "decrypting", err
}
''')]),
 dict(name="r-fatal-helper", kind="ref", props=["C15"], edits=[("main.go",'''	if err := cfg.Validate(); err != nil {
		log.Fatalln("invalid config file:", err)
	}''','''	must("invalid config file:", cfg.Validate())'''),("main.go","",'''
func must(what string, err error) {
	if err != nil {
		log.Fatalln(what, err)
	}
}
''')]),
 dict(name="r-find-flag", kind="ref", props=["C15"], edits=[(FT,'''	if item == nil {
		return nil, fmt.Errorf("%s not found in %s", plainName, cipherPath)
	}
	return
}''','''	if item != nil {
		return item, nil
	}
	return nil, fmt.Errorf("%s not found in %s", plainName, cipherPath)
}''')]),
 dict(name="r-goto-fail", kind="ref", props=["C15"], edits=[("requester/requester.go",'''					fileData, err := r.backend.ReadFile(w.arg1)
					if err != nil {
						return nil, err
					}
					return fileData, nil''','''					if fileData, err := r.backend.ReadFile(w.arg1); err == nil {
						return fileData, nil
					} else {
						return nil, err
					}''')]),
]
