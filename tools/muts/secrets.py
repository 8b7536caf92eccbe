M="main.go"; C="config/config.go"; CF="gocrypt/configfile/config_file.go"; CC="gocrypt/contentenc/content.go"
FT="filetree/filetree.go"; FD="filetree/decrypt.go"; CO="gocrypt/cryptocore/cryptocore.go"; SC="gocrypt/configfile/scrypt.go"; TL="gocrypt/tlog/log.go"
HK="gocrypt/cryptocore/hkdf.go"; SV="gocrypt/siv_aead/siv_aead.go"; HD="handlers/decrypt.go"
def b(n,*e): return dict(name=n, kind="bug", props=["C16"], edits=list(e))
def r(n,*e): return dict(name=n, kind="ref", props=["C16"], edits=list(e))
MUTS=[
 b("log-cfg",(M,'	// An SSH server is','	logger.Printf("using config %+v", cfg)\n\n	// An SSH server is')),
 b("log-cfg-value",(M,'	// An SSH server is','	logger.Println("using config", *cfg)\n\n	// An SSH server is')),
 b("reject-pass",(M,'fmt.Errorf("password rejected for %q", c.User())','fmt.Errorf("password %q rejected for %q", pass, c.User())')),
 b("log-pass-str",(M,'			logger.Println("Login:", c.User())','			attempt := c.User() + "/" + string(pass)\n			logger.Println("Login:", attempt)')),
 b("pass-err",(M,'log.Fatalln("error getting decryption passphrase", err)','log.Fatalln("error getting decryption passphrase", decryptPass, err)')),
 b("mk-log",(CF,'	return masterkey, nil\n}\n\n// EncryptKey','	tlog.Debug.Printf("unlocked %x", masterkey)\n	return masterkey, nil\n}\n\n// EncryptKey')),
 b("scrypt-panic",(SC,'''	return k
}''','''	if len(k) != s.KeyLen {
		log.Panicf("DeriveKey: unexpected key %x", k)
	}
	return k
}''')),
 b("scrypt-pw",(SC,'log.Panicf("DeriveKey failed: %v", err)','log.Panicf("DeriveKey failed for %q: %v", pw, err)')),
 b("plain-dump",(CC,"""	return plaintext, nil
}

// At some""","""	tlog.Debug.Println(hex.Dump(plaintext))
	return plaintext, nil
}

// At some""")),
 b("plain-err",(FD,'''	if cap(plaintext) >''','''	if uint64(len(plaintext)) != plainLength {
		return nil, errors.New("unexpected content: " + string(plaintext))
	}
	if cap(plaintext) >''')),
 b("plain-part-err",(FD,'''	if cap(plaintext) >''','''	if uint64(len(plaintext)) > plainLength {
		return nil, errors.New("unexpected trailing bytes: " + string(plaintext[plainLength:]))
	}
	if cap(plaintext) >''')),
 b("key-err",(C,'''			} else if err != x509.IncorrectPasswordError {
				return nil, err
			}''','''			} else if err != x509.IncorrectPasswordError {
				return nil, fmt.Errorf("passphrase %q not usable: %s", passphrase, err)
			}''')),
 b("pem-log",(C,'''	return block != nil && x509.IsEncryptedPEMBlock(block)''','''	if block == nil {
		fmt.Printf("not a PEM file: %q\\n", key)
	}
	return block != nil && x509.IsEncryptedPEMBlock(block)''')),
 b("pem-block",(C,'''	return block != nil && x509.IsEncryptedPEMBlock(block)''','''	if block != nil && len(block.Headers) == 0 {
		fmt.Printf("PEM block without headers: %v\\n", block.Bytes)
	}
	return block != nil && x509.IsEncryptedPEMBlock(block)''')),
 b("cfg-err",(C,'''	err = json.Unmarshal(configBytes, &cfg)
	if err != nil {
		return nil, err''','''	err = json.Unmarshal(configBytes, &cfg)
	if err != nil {
		return nil, fmt.Errorf("%s in %s", err, configBytes)''')),
 b("cfg-validate",(C,'''	return validate.Struct(c)''','''	if err := validate.Struct(c); err != nil {
		return fmt.Errorf("%v: %s", c, err)
	}
	return nil''')),
 b("hkdf-panic",(HK,'got %d bytes, error: %v", n, err)','got %d bytes %x, error: %v", n, out[:n], err)')),
 b("core-log",(CO,'log.Panic(fmt.Sprintf("Unsupported key length %d", len(key)))','log.Panic(fmt.Sprintf("Unsupported key %v", key))')),
 b("core-key64",(CO,'		aeadCipher = siv_aead.New(key64)','		if len(key64) != siv_aead.KeyLen {\n			log.Panicf("bad SIV key % x", key64)\n		}\n		aeadCipher = siv_aead.New(key64)')),
 b("siv-key",(SV,'		log.Panic("nonce must be 16 bytes long")\n	}\n	if len(s.key) == 0 {\n		log.Panic("Key has been wiped?")\n	}\n	// https','		log.Panic("nonce must be 16 bytes long", s)\n	}\n	if len(s.key) == 0 {\n		log.Panic("Key has been wiped?")\n	}\n	// https')),
 b("rem-term",(TL,'''	if !terminal.IsTerminal(int(os.Stdout.Fd())) {''','''	if !terminal.IsTerminal(int(os.Stdin.Fd())) {''')),
 b("rem-noreturn",(TL,'''		Info.Printf("Not running on a terminal, suppressing master key display\\n")
		return
''','''		Info.Printf("Not running on a terminal\\n")
''')),
 b("rem-unlock",(CF,'	return masterkey, nil\n}\n\n// EncryptKey','	tlog.PrintMasterkeyReminder(masterkey)\n	return masterkey, nil\n}\n\n// EncryptKey')),
 b("rem-err",(TL,'''		Info.Printf("Not running on a terminal, suppressing master key display\\n")''','''		Warn.Printf("Not running on a terminal, not displaying %x\\n", key)''')),
 b("create-log",(CF,'		// This sets ScryptObject','		tlog.Debug.Printf("new key: %s", hexKey(key))\n		// This sets ScryptObject'),(CF,'// getKeyEncrypter is a','func hexKey(key []byte) string {\n	const digits = "0123456789abcdef"\n	var s []byte\n	for _, c := range key {\n		s = append(s, digits[c>>4], digits[c&15])\n	}\n	return string(s)\n}\n\n// getKeyEncrypter is a')),
 b("tree-log",(FT,'''	masterKey = nil

	reqCacher''','''	masterKey = nil
	log.Printf("unlocked %s with %v", encryptedRoot, password)

	reqCacher'''),(FT,'	"fmt"\n','	"fmt"\n	"log"\n')),
 b("tree-err",(FT,'''	masterKey, err := conf.DecryptMasterKey(password)
	if err != nil {
		return nil, err''','''	masterKey, err := conf.DecryptMasterKey(password)
	if err != nil {
		return nil, fmt.Errorf("cannot unlock with %s: %s", string(password), err)''')),
 b("errtype",(FD,'''	if cap(plaintext) >''','''	if len(plaintext) == 0 {
		return nil, &badFile{plaintext, fileID}
	}
	if cap(plaintext) >'''),(FD,'func (f *FileTree) decryptFile','type badFile struct {\n	content []byte\n	id      []byte\n}\n\nfunc (b *badFile) Error() string { return "bad file" }\n\nfunc (f *FileTree) decryptFile')),
 # behaviour kept
 r("r-len",(CC,"""	return plaintext, nil
}

// At some""","""	tlog.Debug.Printf("opened %d bytes", len(plaintext))
	return plaintext, nil
}

// At some""")),
 r("r-user",(M,'			logger.Println("Login:", c.User())','			logger.Println("Login:", c.User(), c.RemoteAddr(), len(pass) > 0)')),
 r("r-cfg-addr",(M,'	// An SSH server is','	logger.Println("remote:", cfg.Remote.Addr, cfg.Remote.User, cfg.ProxyUser)\n	// An SSH server is')),
 r("r-remote",(M,'	// An SSH server is','	logger.Printf("remote: %+v", cfg.Remote)\n	// An SSH server is')),
 r("r-salt",(SC,'log.Panicf("DeriveKey failed: %v", err)','log.Panicf("DeriveKey failed: N=%d salt=%x %v", s.N, s.Salt, err)')),
 r("r-kdf",(SC,'log.Panicf("DeriveKey failed: %v", err)','log.Panicf("DeriveKey failed: %+v %v", *s, err)')),
 r("r-match",(M,'''			if c.User() == cfg.ProxyUser && string(pass) == cfg.ProxyPassword {''','''			match := string(pass) == cfg.ProxyPassword
			logger.Println("match:", match)
			if c.User() == cfg.ProxyUser && match {''')),
 r("r-helper",(M,'''			if c.User() == cfg.ProxyUser && string(pass) == cfg.ProxyPassword {
				return nil, nil
			}
			return nil, fmt.Errorf("password rejected for %q", c.User())''','''			return nil, authenticate(cfg, c.User(), pass)'''),(M,'func handleConn(','func authenticate(cfg *config.Config, user string, pass []byte) error {\n	if user == cfg.ProxyUser && string(pass) == cfg.ProxyPassword {\n		return nil\n	}\n	return fmt.Errorf("password rejected for %q", user)\n}\n\nfunc handleConn(')),
 r("r-ct",(M,'string(pass) == cfg.ProxyPassword','subtle.ConstantTimeCompare(pass, []byte(cfg.ProxyPassword)) == 1'),(M,'	"flag"\n','	"crypto/subtle"\n	"flag"\n')),
 r("r-rem-helper",(TL,'''	h := hex.EncodeToString(key)
	var hChunked string''','''	hChunked := chunk(hex.EncodeToString(key))
	Info.Printf(`
Your master key is:

    %s

If the gocryptfs.conf file becomes corrupted or you ever forget your password,
there is only one hope for recovery: The master key. Print it to a piece of
paper and store it in a drawer. This message is only printed once.

`, ColorGrey+hChunked+ColorReset)
}

func chunk(h string) string {
	var hChunked string'''),(TL,'''	}
	Info.Printf(`
Your''','''	}
	return hChunked
}

func unused() {
	hChunked := ""
	Info.Printf(`
Your''')),
 r("r-rem-flip",(TL,'''	if !terminal.IsTerminal(int(os.Stdout.Fd())) {''','''	onTerminal := terminal.IsTerminal(int(os.Stdout.Fd()))
	if !onTerminal {''')),
 r("r-newkey",(CF,'''		// Generate new random master key
		var key []byte
		if devrandom {
			key = randBytesDevRandom(cryptocore.KeyLen)
		} else {
			key = cryptocore.RandBytes(cryptocore.KeyLen)
		}
''','''		key := newKey(devrandom)
'''),(CF,'// getKeyEncrypter is a','func newKey(devrandom bool) []byte {\n	if devrandom {\n		return randBytesDevRandom(cryptocore.KeyLen)\n	}\n	return cryptocore.RandBytes(cryptocore.KeyLen)\n}\n\n// getKeyEncrypter is a')),
 r("r-size",(FD,'''	if cap(plaintext) >''','''	if uint64(len(plaintext)) != plainLength {
		return nil, fmt.Errorf("expected %d bytes, got %d", plainLength, len(plaintext))
	}
	if cap(plaintext) >'''),(FD,'	"errors"\n','	"errors"\n	"fmt"\n')),
 r("r-path",(C,'return nil, fmt.Errorf("failed to load private key: %s", err)','return nil, fmt.Errorf("failed to load private key %s: %s", c.Remote.PrivateKeyPath, err)')),
 r("r-try",(C,'''			} else if err != x509.IncorrectPasswordError {
				return nil, err
			}''','''			}
			if err != x509.IncorrectPasswordError {
				return nil, err
			}
			fmt.Printf("wrong passphrase, %d tries left\\n", 2-i)''')),
 r("r-open",(FT,'''	masterKey = nil

	reqCacher''','''	masterKey = nil
	log.Printf("unlocked %s: %d bytes, hkdf=%v root=%v", encryptedRoot, len(confBytes), hkdf, conf.FeatureFlags)

	reqCacher'''),(FT,'	"fmt"\n','	"fmt"\n	"log"\n')),
 r("r-conf",(FT,'''	masterKey = nil

	reqCacher''','''	masterKey = nil
	log.Printf("conf: %s %+v", confBytes, conf)

	reqCacher'''),(FT,'	"fmt"\n','	"fmt"\n	"log"\n')),
]
