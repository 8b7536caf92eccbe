OF="gocrypt/contentenc/offsets.go"; IB="gocrypt/contentenc/intrablock.go"; FH="gocrypt/contentenc/file_header.go"; BP="gocrypt/contentenc/bpool.go"; CE="gocrypt/contentenc/content.go"
PD="gocrypt/nametransform/pad16.go"; NM="gocrypt/nametransform/names.go"; FF="gocrypt/configfile/feature_flags.go"; CF="gocrypt/configfile/config_file.go"; SC="gocrypt/configfile/scrypt.go"
CO="gocrypt/cryptocore/cryptocore.go"; FD="filetree/decrypt.go"; FC="filetree/fastcache.go"; PL="backend/pool.go"; PV="backend/provider.go"; HD="handlers/decrypt.go"; M="main.go"; C="config/config.go"
FT="filetree/filetree.go"
def r(n,*e): return dict(name=n, kind="ref", props=[], edits=list(e))
MUTS=[
 r("of-cts-switch",(OF,'''	if cipherSize == 0 {
		return 0
	}

	if cipherSize == HeaderLen {
		// This can happen between createHeader() and Write() and is harmless.
		tlog.Debug.Printf("cipherSize %d == header size: interrupted write?\\n", cipherSize)
		return 0
	}

	if cipherSize < HeaderLen {
		tlog.Warn.Printf("cipherSize %d < header size %d: corrupt file\\n", cipherSize, HeaderLen)
		return 0
	}
''','''	switch {
	case cipherSize == 0:
		return 0
	case cipherSize < HeaderLen:
		tlog.Warn.Printf("cipherSize %d < header size %d: corrupt file\\n", cipherSize, HeaderLen)
		return 0
	case cipherSize == HeaderLen:
		tlog.Debug.Printf("cipherSize %d == header size: interrupted write?\\n", cipherSize)
		return 0
	}
''')),
 r("of-overhead",(OF,'''	// Block number at last byte
	blockNo := be.CipherOffToBlockNo(cipherSize - 1)
	blockCount := blockNo + 1

	overhead := be.BlockOverhead()*blockCount + HeaderLen

	if overhead > cipherSize''','''	overhead := be.totalOverhead(be.CipherOffToBlockNo(cipherSize - 1))
	if overhead > cipherSize'''),(OF,'''	// Block number at last byte
	blockNo := be.PlainOffToBlockNo(plainSize - 1)
	blockCount := blockNo + 1

	overhead := be.BlockOverhead()*blockCount + HeaderLen

	return plainSize + overhead''','''	return plainSize + be.totalOverhead(be.PlainOffToBlockNo(plainSize-1))'''),(OF,'// MinUint64 returns','''func (be *ContentEnc) totalOverhead(lastBlock uint64) uint64 {
	return HeaderLen + (lastBlock+1)*be.BlockOverhead()
}

// MinUint64 returns''')),
 r("of-explode",(OF,'''	var blocks []IntraBlock
	var nextBlock IntraBlock
	nextBlock.fs = be

	for length > 0 {
		nextBlock.BlockNo = be.PlainOffToBlockNo(offset)
		nextBlock.Skip = offset - be.BlockNoToPlainOff(nextBlock.BlockNo)

		// Minimum of remaining plaintext data and remaining space in the block
		nextBlock.Length = MinUint64(length, be.plainBS-nextBlock.Skip)

		blocks = append(blocks, nextBlock)
		offset += nextBlock.Length
		length -= nextBlock.Length
	}
	return blocks
''','''	var blocks []IntraBlock
	for length != 0 {
		no := be.PlainOffToBlockNo(offset)
		skip := offset - be.BlockNoToPlainOff(no)
		n := MinUint64(length, be.plainBS-skip)
		blocks = append(blocks, IntraBlock{BlockNo: no, Skip: skip, Length: n, fs: be})
		offset += n
		length -= n
	}
	return blocks
''')),
 r("of-explode-mod",(OF,'nextBlock.Skip = offset - be.BlockNoToPlainOff(nextBlock.BlockNo)','nextBlock.Skip = offset % be.plainBS')),
 r("of-min",(OF,'''	if x < y {
		return x
	}
	return y''','''	if y <= x {
		return y
	}
	return x''')),
 r("ib-partial",(IB,'''	if ib.Skip > 0 || ib.Length < ib.fs.plainBS {
		return true
	}
	return false''','''	return ib.Skip != 0 || ib.Length < ib.fs.plainBS''')),
 r("ib-crop",(IB,'''	lenHave := len(d)
	lenWant := int(ib.Skip + ib.Length)
	if lenHave < lenWant {
		return d[ib.Skip:lenHave]
	}
	return d[ib.Skip:lenWant]''','''	end := int(ib.Skip + ib.Length)
	if end > len(d) {
		end = len(d)
	}
	return d[ib.Skip:end]''')),
 r("fh-const",(FH,'''	var h FileHeader
	h.Version = binary.BigEndian.Uint16(buf[0:headerVersionLen])
	if h.Version != CurrentVersion {
		return nil, fmt.Errorf("ParseHeader: invalid version, want=%d have=%d. Hexdump: %s",
			CurrentVersion, h.Version, hex.EncodeToString(buf))
	}
	h.ID = buf[headerVersionLen:]
	if bytes.Equal(h.ID, allZeroFileID) {
		return nil, fmt.Errorf("ParseHeader: file id is all-zero. Hexdump: %s",
			hex.EncodeToString(buf))
	}
	return &h, nil''','''	version, id := binary.BigEndian.Uint16(buf), buf[headerVersionLen:]
	if version != CurrentVersion {
		return nil, fmt.Errorf("ParseHeader: invalid version, want=%d have=%d. Hexdump: %s",
			CurrentVersion, version, hex.EncodeToString(buf))
	}
	if bytes.Equal(id, allZeroFileID) {
		return nil, fmt.Errorf("ParseHeader: file id is all-zero. Hexdump: %s",
			hex.EncodeToString(buf))
	}
	return &FileHeader{Version: version, ID: id}, nil''')),
 r("fh-zeroloop",(FH,'''	if bytes.Equal(h.ID, allZeroFileID) {
		return nil''','''	if isAllZero(h.ID) {
		return nil'''),(FH,'// RandomHeader -','''func isAllZero(id []byte) bool {
	return bytes.Equal(id, allZeroFileID)
}

// RandomHeader -''')),
 r("fh-pack",(FH,'''	buf := make([]byte, HeaderLen)
	binary.BigEndian.PutUint16(buf[0:headerVersionLen], h.Version)
	copy(buf[headerVersionLen:], h.ID)
	return buf
''','''	buf := make([]byte, headerVersionLen, HeaderLen)
	binary.BigEndian.PutUint16(buf, h.Version)
	return append(buf, h.ID...)
''')),
 r("bp-check",(BP,'''	s = s[:cap(s)]
	if len(s) != b.sliceLen {
		log.Panicf("wrong len=%d, want=%d", len(s), b.sliceLen)
	}
	b.Pool.Put(s)''','''	if cap(s) != b.sliceLen {
		log.Panicf("wrong len=%d, want=%d", cap(s), b.sliceLen)
	}
	b.Pool.Put(s[:b.sliceLen])''')),
 r("ce-decblocks",(CE,'''		if err != nil {
			if be.forceDecode && err == stupidgcm.ErrAuth {
				tlog.Warn.Printf("DecryptBlocks: authentication failure in block #%d, overridden by forcedecode", firstBlockNo)
			} else {
				break
			}
		}
''','''		if err != nil && !(be.forceDecode && err == stupidgcm.ErrAuth) {
			break
		}
		if err != nil {
			tlog.Warn.Printf("DecryptBlocks: authentication failure in block #%d, overridden by forcedecode", firstBlockNo)
		}
''')),
 r("ce-decblocks-for",(CE,'''	blockNo := firstBlockNo
	for cBuf.Len() > 0 {
		cBlock''','''	for blockNo := firstBlockNo; cBuf.Len() > 0; blockNo++ {
		cBlock'''),(CE,'''		be.pBlockPool.Put(pBlock)
		blockNo++
''','''		be.pBlockPool.Put(pBlock)
''')),
 r("ce-decblocks-slice",(CE,'''	cBuf := bytes.NewBuffer(ciphertext)
''',''),(CE,'''	for cBuf.Len() > 0 {
		cBlock := cBuf.Next(int(be.cipherBS))
''','''	rest := ciphertext
	for len(rest) > 0 {
		n := int(be.cipherBS)
		if n > len(rest) {
			n = len(rest)
		}
		cBlock := rest[:n]
		rest = rest[n:]
''')),
 r("ce-decblock-split",(CE,'''	ciphertextOrig := ciphertext
	ciphertext = ciphertext[be.cryptoCore.IVLen:]

	// Decrypt
	plaintext := be.pBlockPool.Get()
	plaintext = plaintext[:0]
	aData := concatAD(blockNo, fileID)
	plaintext, err := be.cryptoCore.AEADCipher.Open(plaintext, nonce, ciphertext, aData)
''','''	ciphertextOrig := ciphertext
	plaintext, err := be.open(nonce, ciphertext[len(nonce):], blockNo, fileID)
'''),(CE,'// At some point, splitting','''func (be *ContentEnc) open(nonce, sealed []byte, blockNo uint64, fileID []byte) ([]byte, error) {
	buf := be.pBlockPool.Get()[:0]
	return be.cryptoCore.AEADCipher.Open(buf, nonce, sealed, concatAD(blockNo, fileID))
}

// At some point, splitting''')),
 r("ce-ad-order",(CE,'''	// Block is authenticated with block number and file ID
	aData := concatAD(blockNo, fileID)
	// Get a cipherBS-sized block of memory, copy the nonce into it and truncate to
	// nonce length
	cBlock := be.cBlockPool.Get()
	copy(cBlock, nonce)
	cBlock = cBlock[0:len(nonce)]
	// Encrypt plaintext and append to nonce
	ciphertext := be.cryptoCore.AEADCipher.Seal(cBlock, nonce, plaintext, aData)
''','''	cBlock := append(be.cBlockPool.Get()[:0], nonce...)
	ciphertext := be.cryptoCore.AEADCipher.Seal(cBlock, nonce, plaintext, concatAD(blockNo, fileID))
''')),
 r("ce-adappend",(CE,'''	aData = make([]byte, lenUint64, lenUint64+headerIDLen)
	binary.BigEndian.PutUint64(aData, blockNo)
	aData = append(aData, fileID...)
	return aData''','''	aData = make([]byte, lenUint64+len(fileID))
	binary.BigEndian.PutUint64(aData, blockNo)
	copy(aData[lenUint64:], fileID)
	return aData''')),
 r("ce-merge",(CE,'''	outLen := len(oldData)
	newLen := offset + len(newData)
	if outLen < newLen {
		outLen = newLen
	}
	return out[0:outLen]''','''	if end := offset + l; end > len(oldData) {
		return out[:end]
	}
	return out[:len(oldData)]''')),
 r("ce-encblocks-helper",(CE,'''	for i, v := range in {
		out[i] = be.EncryptBlock(v, firstBlockNo+uint64(i), fileID)
	}
''','''	blockNo := firstBlockNo
	for i := 0; i < len(in); i++ {
		out[i] = be.EncryptBlock(in[i], blockNo, fileID)
		blockNo++
	}
''')),
 r("ce-encblocks-join",(CE,'''	// Concatenate ciphertext into a single byte array.
	tmp := be.CReqPool.Get()
	out := bytes.NewBuffer(tmp[:0])
	for _, v := range ciphertextBlocks {
		out.Write(v)
		if len(v) > 0 {
			// Return the memory to cBlockPool. The encryption of an empty
			// block is the caller's own slice and stays out of it.
			be.cBlockPool.Put(v)
		}
	}
	return out.Bytes()
''','''	return be.join(ciphertextBlocks)
'''),(CE,'// doEncryptBlocks is called','''func (be *ContentEnc) join(blocks [][]byte) []byte {
	out := bytes.NewBuffer(be.CReqPool.Get()[:0])
	for _, b := range blocks {
		out.Write(b)
		if len(b) == 0 {
			continue
		}
		be.cBlockPool.Put(b)
	}
	return out.Bytes()
}

// doEncryptBlocks is called''')),
 r("pd-pad",(PD,'''	padLen := aes.BlockSize - oldLen%aes.BlockSize
	if padLen == 0 {
		padLen = aes.BlockSize
	}
	newLen := oldLen + padLen
	padded = make([]byte, newLen)
	copy(padded, orig)
	padByte := byte(padLen)
	for i := oldLen; i < newLen; i++ {
		padded[i] = padByte
	}
	return padded''','''	padLen := aes.BlockSize - oldLen%aes.BlockSize
	padded = make([]byte, oldLen+padLen)
	n := copy(padded, orig)
	for i := range padded[n:] {
		padded[n+i] = byte(padLen)
	}
	return padded''')),
 r("pd-unpad",(PD,'''	// Padding must be at least 1 byte
	if padLen == 0 {
		return nil, errors.New("Padding cannot be zero-length")
	}
	// Padding more than 16 bytes make no sense
	if padLen > aes.BlockSize {
		return nil, fmt.Errorf("Padding too long, padLen=%d > 16", padLen)
	}
''','''	if padLen < 1 || padLen > aes.BlockSize {
		return nil, fmt.Errorf("Padding length is not possible, padLen=%d", padLen)
	}
''')),
 r("pd-unpad-range",(PD,'''	for i := oldLen - padLen; i < oldLen; i++ {
		if padded[i] != padByte {
			return nil, fmt.Errorf("Padding byte at i=%d is invalid", i)
		}
	}
	newLen := oldLen - padLen
	return padded[0:newLen], nil''','''	newLen := oldLen - padLen
	for i, b := range padded[newLen:] {
		if b != padByte {
			return nil, fmt.Errorf("Padding byte at i=%d is invalid", newLen+i)
		}
	}
	return padded[:newLen], nil''')),
 r("nm-valid",(NM,'''	if bytes.Contains(bin, []byte{0}) || bytes.Contains(bin, []byte("/")) {
		return "", syscall.EBADMSG
	}
	// The name should never be "." or "..".
	if bytes.Equal(bin, []byte(".")) || bytes.Equal(bin, []byte("..")) {
		return "", syscall.EBADMSG
	}
	plain := string(bin)
	return plain, err''','''	plain := string(bin)
	if bytes.IndexByte(bin, 0) >= 0 || bytes.IndexByte(bin, '/') >= 0 || plain == "." || plain == ".." {
		return "", syscall.EBADMSG
	}
	return plain, nil''')),
 r("nm-validfn",(NM,'''	if bytes.Contains(bin, []byte{0}) || bytes.Contains(bin, []byte("/")) {
		return "", syscall.EBADMSG
	}
	// The name should never be "." or "..".
	if bytes.Equal(bin, []byte(".")) || bytes.Equal(bin, []byte("..")) {
		return "", syscall.EBADMSG
	}
	plain := string(bin)
	return plain, err''','''	plain := string(bin)
	if !validName(plain) {
		return "", syscall.EBADMSG
	}
	return plain, nil'''),(NM,'// EncryptName encrypts "plainName"','''func validName(s string) bool {
	switch s {
	case ".", "..":
		return false
	}
	return !strings.ContainsAny(s, "\\x00/")
}

// EncryptName encrypts "plainName"'''),(NM,'	"bytes"\n','	"strings"\n')),
 r("nm-b64",(NM,'''	b64 := base64.URLEncoding
	if raw64 {
		b64 = base64.RawURLEncoding
	}
''','''	var b64 *base64.Encoding
	if raw64 {
		b64 = base64.RawURLEncoding
	} else {
		b64 = base64.URLEncoding
	}
''')),
 r("ff-set",(FF,'''	flagString := knownFlags[flagWant]
	for _, flag := range cf.FeatureFlags {
		if flag == flagString {
			return true
		}
	}
	return false''','''	want := knownFlags[flagWant]
	for i := range cf.FeatureFlags {
		if cf.FeatureFlags[i] == want {
			return true
		}
	}
	return false''')),
 r("cf-req",(CF,'''	var requiredFlags []flagIota
	if cf.IsFeatureFlagSet(FlagPlaintextNames) {
		requiredFlags = requiredFlagsPlaintextNames
	} else {
		requiredFlags = requiredFlagsNormal
	}
	deprecatedFs := false
	for _, i := range requiredFlags {
		if !cf.IsFeatureFlagSet(i) {
			fmt.Fprintf(os.Stderr, "Required feature flag %q is missing\\n", knownFlags[i])
			deprecatedFs = true
		}
	}
	if deprecatedFs {''','''	if missing := cf.missingFlags(); len(missing) > 0 {
		for _, m := range missing {
			fmt.Fprintf(os.Stderr, "Required feature flag %q is missing\\n", knownFlags[m])
		}'''),(CF,'// DecryptMasterKey decrypts','''func (cf *ConfFile) missingFlags() (missing []flagIota) {
	required := requiredFlagsNormal
	if cf.IsFeatureFlagSet(FlagPlaintextNames) {
		required = requiredFlagsPlaintextNames
	}
	for _, f := range required {
		if !cf.IsFeatureFlagSet(f) {
			missing = append(missing, f)
		}
	}
	return missing
}

// DecryptMasterKey decrypts''')),
 r("cf-load-parse",(CF,'''	// Unmarshal
	err = json.Unmarshal(js, &cf)
	if err != nil {
		tlog.Warn.Printf("Failed to unmarshal config file")
		return nil, err
	}
''','''	if err := json.Unmarshal(js, &cf); err != nil {
		tlog.Warn.Printf("Failed to unmarshal config file")
		return nil, err
	}
''')),
 r("cf-wipefn",(CF,'''	// Purge scrypt-derived key
	for i := range scryptHash {
		scryptHash[i] = 0
	}
	scryptHash = nil
	ce.Wipe()
	ce = nil

	if err''','''	wipe(scryptHash)
	ce.Wipe()

	if err'''),(CF,'''	// Purge scrypt-derived key
	for i := range scryptHash {
		scryptHash[i] = 0
	}
	scryptHash = nil
	ce.Wipe()
	ce = nil
}''','''	wipe(scryptHash)
	ce.Wipe()
}

func wipe(b []byte) {
	for i := range b {
		b[i] = 0
	}
}''')),
 r("cf-defer",(CF,'''	useHKDF := cf.IsFeatureFlagSet(FlagHKDF)
	ce := getKeyEncrypter(scryptHash, useHKDF)
	cf.EncryptedKey = ce.EncryptBlock(key, 0, nil)

	// Purge scrypt-derived key
	for i := range scryptHash {
		scryptHash[i] = 0
	}
	scryptHash = nil
	ce.Wipe()
	ce = nil
}''','''	defer func() {
		for i := range scryptHash {
			scryptHash[i] = 0
		}
	}()
	ce := getKeyEncrypter(scryptHash, cf.IsFeatureFlagSet(FlagHKDF))
	defer ce.Wipe()
	cf.EncryptedKey = ce.EncryptBlock(key, 0, nil)
}''')),
 r("cf-ivlen",(CF,'''	IVLen := 96
	// gocryptfs v1.2 and older used 96-bit IVs for master key encryption.
	// v1.3 adds the "HKDF" feature flag, which also enables 128-bit nonces.
	if useHKDF {
		IVLen = contentenc.DefaultIVBits
	}
	cc := cryptocore.New(scryptHash, cryptocore.BackendGoGCM, IVLen, useHKDF, false)
	ce := contentenc.New(cc, 4096, false)
	return ce''','''	bits := contentenc.DefaultIVBits
	if !useHKDF {
		bits = 96
	}
	return contentenc.New(cryptocore.New(scryptHash, cryptocore.BackendGoGCM, bits, useHKDF, false), contentenc.DefaultBS, false)''')),
 r("cf-write",(CF,'''	err = fd.Close()
	if err != nil {
		return err
	}
	err = os.Rename(tmp, cf.filename)
	return err
''','''	if err = fd.Close(); err != nil {
		return err
	}
	return os.Rename(tmp, cf.filename)
''')),
 r("cf-marshal-first",(CF,'''	js, err := json.MarshalIndent(cf, "", "\\t")
	if err != nil {
		return err
	}
	// For convenience for the user, add a newline at the end.
	js = append(js, '\\n')
	_, err = fd.Write(js)
''','''	_, err = fd.Write(js)
'''),(CF,'''	tmp := cf.filename + ".tmp"
''','''	js, err := json.MarshalIndent(cf, "", "\\t")
	if err != nil {
		return err
	}
	js = append(js, '\\n')
	tmp := cf.filename + ".tmp"
''')),
 r("sc-validate",(SC,'''	minN := 1 << scryptMinLogN
	if s.N < minN {''','''	if s.N < 1<<scryptMinLogN {''')),
 r("co-eme",(CO,'''		var emeBlockCipher cipher.Block
		if useHKDF {
			emeKey := hkdfDerive(key, hkdfInfoEMENames, KeyLen)
			emeBlockCipher, err = aes.NewCipher(emeKey)
			for i := range emeKey {
				emeKey[i] = 0
			}
		} else {
			emeBlockCipher, err = aes.NewCipher(key)
		}
		if err != nil {
			log.Panic(err)
		}
		emeCipher = eme.New(emeBlockCipher)''','''		emeKey := append([]byte{}, key...)
		if useHKDF {
			emeKey = hkdfDerive(key, hkdfInfoEMENames, KeyLen)
		}
		var emeBlockCipher cipher.Block
		emeBlockCipher, err = aes.NewCipher(emeKey)
		for i := range emeKey {
			emeKey[i] = 0
		}
		if err != nil {
			log.Panic(err)
		}
		emeCipher = eme.New(emeBlockCipher)''')),
 r("co-derive",(CO,'''		var gcmKey []byte
		if useHKDF {
			gcmKey = hkdfDerive(key, hkdfInfoGCMContent, KeyLen)
		} else {
			gcmKey = append([]byte{}, key...)
		}
''','''		gcmKey := contentKey(key, useHKDF)
'''),(CO,'// Wipe ','''func contentKey(master []byte, derive bool) []byte {
	if derive {
		return hkdfDerive(master, hkdfInfoGCMContent, KeyLen)
	}
	k := make([]byte, len(master))
	copy(k, master)
	return k
}

// Wipe ''')),
 r("fd-short",(FD,'''	if len(fileBytes) == 0 || len(fileBytes) == contentenc.HeaderLen {
		// An empty file, or one that has not been written to yet.
		return []byte{}, nil
	}
''','''	switch len(fileBytes) {
	case 0, contentenc.HeaderLen:
		return []byte{}, nil
	}
''')),
 r("fd-copy",(FD,'''	plainBytes := make([]byte, plainLength)
	copy(plainBytes, plaintext)
	f.cEnc.PReqPool.Put(plaintext)
	return plainBytes, nil''','''	defer f.cEnc.PReqPool.Put(plaintext)
	plainBytes := make([]byte, plainLength)
	copy(plainBytes, plaintext)
	return plainBytes, nil''')),
 r("fd-invert",(FD,'''	if cap(plaintext) > (contentenc.MAX_KERNEL_WRITE + contentenc.DefaultBS) {
		return plaintext, nil
	}
	plainBytes := make([]byte, plainLength)
	copy(plainBytes, plaintext)
	f.cEnc.PReqPool.Put(plaintext)
	return plainBytes, nil''','''	if cap(plaintext) <= contentenc.MAX_KERNEL_WRITE+contentenc.DefaultBS {
		plainBytes := make([]byte, plainLength)
		copy(plainBytes, plaintext)
		f.cEnc.PReqPool.Put(plaintext)
		return plainBytes, nil
	}
	return plaintext, nil''')),
 r("fc-store-split",(FC,'''	f.count++
	if f.count > f.cacheSize {
		// Reuse old allocated resource if we're at the cache limit
		oldHeadPath := f.head.PlaintextPath
		d := f.head
		f.refreshNode(d)
		d.PlaintextPath = pPath
		d.CiphertextPath = cPath
		f.count = f.cacheSize
		delete(f.storage, oldHeadPath)
		f.storage[pPath] = d
	} else {''','''	f.count++
	if f.count > f.cacheSize {
		f.replaceOldest(pPath, cPath)
	} else {'''),(FC,'// Clear removes','''// replaceOldest reuses the least recently used node.
func (f *FastCache) replaceOldest(pPath, cPath string) {
	d := f.head
	delete(f.storage, d.PlaintextPath)
	f.refreshNode(d)
	d.PlaintextPath, d.CiphertextPath = pPath, cPath
	f.storage[pPath] = d
	f.count = f.cacheSize
}

// Clear removes''')),
 r("fc-refresh",(FC,'''	if d.next != nil {
		if d.prev != nil {
			d.prev.next = d.next
		} else {
			f.head = d.next
		}
		d.next.prev = d.prev
		d.prev = f.last
		d.next = nil
		f.last.next = d
		f.last = d
	}
''','''	if d.next == nil {
		return
	}
	if d.prev == nil {
		f.head = d.next
	} else {
		d.prev.next = d.next
	}
	d.next.prev = d.prev
	f.last.next = d
	d.prev, d.next = f.last, nil
	f.last = d
''')),
 r("fc-count",(FC,'''	f.count++
	if f.count > f.cacheSize {''','''	if f.count >= f.cacheSize {'''),(FC,'''		f.count = f.cacheSize
''',''),(FC,'''		newNode := &DirMapping{''','''		f.count++
		newNode := &DirMapping{''')),
 r("pl-put",(PL,'''	if c == nil {
		return
	}
	select {
	case p.conns <- c:
	default:
		c.Close()
	}''','''	if c != nil {
		select {
		case p.conns <- c:
			return
		default:
		}
		c.Close()
	}''')),
 r("pv-giveback",(PV,'''	listing, err := c.sftpConn.ReadDir(path)
	if err != nil {
		// Test the underlying ssh connection to see if it's still okay.
		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
		if sshErr != nil {
			c.Close()
		} else {
			p.p.Put(c)
		}
		return nil, err
	}
	p.p.Put(c)
	return listing, nil''','''	listing, err := c.sftpConn.ReadDir(path)
	p.giveBack(c, err)
	if err != nil {
		return nil, err
	}
	return listing, nil'''),(PV,'''	stat, err := c.sftpConn.Stat(path)
	if err != nil {
		// Test the underlying ssh connection to see if it's still okay.
		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
		if sshErr != nil {
			c.Close()
		} else {
			p.p.Put(c)
		}
		return nil, err
	}
	p.p.Put(c)
	return stat, nil
}''','''	stat, err := c.sftpConn.Stat(path)
	p.giveBack(c, err)
	if err != nil {
		return nil, err
	}
	return stat, nil
}

// giveBack returns the connection to the pool unless it is broken.
func (p *Provider) giveBack(c *conn, err error) {
	if err != nil {
		if _, _, sshErr := c.sshConn.SendRequest("ping", true, nil); sshErr != nil {
			c.Close()
			return
		}
	}
	p.p.Put(c)
}''')),
 r("pv-with",(PV,'''	c, err := p.p.Get()
	if err != nil {
		return nil, err
	}
	listing, err := c.sftpConn.ReadDir(path)
	if err != nil {
		// Test the underlying ssh connection to see if it's still okay.
		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
		if sshErr != nil {
			c.Close()
		} else {
			p.p.Put(c)
		}
		return nil, err
	}
	p.p.Put(c)
	return listing, nil''','''	var listing []os.FileInfo
	err := p.with(func(c *conn) (err error) {
		listing, err = c.sftpConn.ReadDir(path)
		return err
	})
	if err != nil {
		return nil, err
	}
	return listing, nil'''),(PV,'// Stat acquires','''// with runs the operation on a connection from the pool.
func (p *Provider) with(op func(c *conn) error) error {
	c, err := p.p.Get()
	if err != nil {
		return err
	}
	if err := op(c); err != nil {
		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
		if sshErr != nil {
			c.Close()
		} else {
			p.p.Put(c)
		}
		return err
	}
	p.p.Put(c)
	return nil
}

// Stat acquires''')),
 r("hd-cmd-if",(HD,'''	case "Rmdir", "Remove":
		return fmt.Errorf("Removing not supported. path: %s", req.Filepath)
	case "Mkdir":
		return fmt.Errorf("Mkdir not supported. path: %s", req.Filepath)
''','''	case "Rmdir":
		fallthrough
	case "Remove":
		return fmt.Errorf("Removing not supported. path: %s", req.Filepath)
	case "Mkdir":
		return notSupported("Mkdir", req)
'''),(HD,'func (p *decrypt) Filelist','''func notSupported(what string, req *sftp.Request) error {
	return fmt.Errorf("%s not supported. path: %s", what, req.Filepath)
}

func (p *decrypt) Filelist''')),
 r("hd-list-split",(HD,'''		fileList, err := p.ft.ReadDir(req.Filepath)
		if err != nil {
			return nil, err
		}
		return listerat(fileList), nil
''','''		return p.list(req.Filepath)
'''),(HD,'func (p *decrypt) Filelist','''func (p *decrypt) list(path string) (sftp.ListerAt, error) {
	fileList, err := p.ft.ReadDir(path)
	if err != nil {
		return nil, err
	}
	return listerat(fileList), nil
}

func (p *decrypt) Filelist''')),
 r("m-accept",(M,'''	for {
		nConn, err := listener.Accept()
		if err != nil {
			logger.Println("failed to accept incoming connection", err)
			continue
		}
		go handleConn(nConn, sshConfig, reqHandlers, logger)
	}
}''','''	serve(listener, sshConfig, reqHandlers, logger)
}

func serve(listener net.Listener, sshConfig *ssh.ServerConfig, reqHandlers sftp.Handlers, logger *log.Logger) {
	for {
		nConn, err := listener.Accept()
		if err == nil {
			go handleConn(nConn, sshConfig, reqHandlers, logger)
		} else {
			logger.Println("failed to accept incoming connection", err)
		}
	}
}''')),
 r("m-subsystem",(M,'''			ok := false
			switch req.Type {
			case "subsystem":
				if len(req.Payload) < 4 {
					break
				}
				logger.Printf("Subsystem: %s\\n", req.Payload[4:])
				if string(req.Payload[4:]) == "sftp" {
					ok = true
				}
			}
''','''			ok := false
			if req.Type == "subsystem" && len(req.Payload) >= 4 {
				name := string(req.Payload[4:])
				logger.Printf("Subsystem: %s\\n", name)
				ok = name == "sftp"
			}
''')),
 r("m-reqs",(M,'''	go func(in <-chan *ssh.Request) {
		for req := range in {''','''	go answerRequests(requests, logger)

	server := sftp.NewRequestServer(channel, reqHandlers)

	err = server.Serve()
	server.Close()
	if err == io.EOF {
		logger.Println("sftp client exited session.")
	} else if err != nil {
		logger.Println("sftp server completed with error:", err)
	}
}

func answerRequests(in <-chan *ssh.Request, logger *log.Logger) {
		for req := range in {'''),(M,'''			_ = req.Reply(ok, nil)
		}
	}(requests)

	server := sftp.NewRequestServer(channel, reqHandlers)

	err = server.Serve()
	server.Close()
	if err == io.EOF {
		logger.Println("sftp client exited session.")
	} else if err != nil {
		logger.Println("sftp server completed with error:", err)
	}
}''','''			_ = req.Reply(ok, nil)
		}
}''')),
 r("m-auth",(M,'''			if c.User() == cfg.ProxyUser && string(pass) == cfg.ProxyPassword {
				return nil, nil
			}
			return nil, fmt.Errorf("password rejected for %q", c.User())''','''			if c.User() != cfg.ProxyUser || string(pass) != cfg.ProxyPassword {
				return nil, fmt.Errorf("password rejected for %q", c.User())
			}
			return nil, nil''')),
 r("m-auth-fn",(M,'''		PasswordCallback: func(c ssh.ConnMetadata, pass []byte) (*ssh.Permissions, error) {
			// Should use constant-time compare (or better, salt+hash) in
			// a production setting.
			logger.Println("Login:", c.User())
			if c.User() == cfg.ProxyUser && string(pass) == cfg.ProxyPassword {
				return nil, nil
			}
			return nil, fmt.Errorf("password rejected for %q", c.User())
		},
	}''','''		PasswordCallback: passwordCallback(cfg, logger),
	}'''),(M,'func handleConn(','''func passwordCallback(cfg *config.Config, logger *log.Logger) func(ssh.ConnMetadata, []byte) (*ssh.Permissions, error) {
	return func(c ssh.ConnMetadata, pass []byte) (*ssh.Permissions, error) {
		logger.Println("Login:", c.User())
		if c.User() == cfg.ProxyUser && string(pass) == cfg.ProxyPassword {
			return nil, nil
		}
		return nil, fmt.Errorf("password rejected for %q", c.User())
	}
}

func handleConn(''')),
 r("m-ct",(M,'string(pass) == cfg.ProxyPassword','subtle.ConstantTimeCompare(pass, []byte(cfg.ProxyPassword)) == 1'),(M,'	"flag"\n','	"crypto/subtle"\n	"flag"\n')),
 r("c-ssh",(C,'''	if isPrivateKeyEncrypted(privateBytes) {
		for i := 0; i < 3; i++ {''','''	if !isPrivateKeyEncrypted(privateBytes) {
		return ssh.ParsePrivateKey(privateBytes)
	}
	{
		for i := 0; i < 3; i++ {'''),(C,'''		return nil, x509.IncorrectPasswordError
	}

	return ssh.ParsePrivateKey(privateBytes)
}''','''		return nil, x509.IncorrectPasswordError
	}
}''')),
 r("ft-init-opts",(FT,'''	hkdf := conf.IsFeatureFlagSet(configfile.FlagHKDF)
	forceDecode := false
	longNames := conf.IsFeatureFlagSet(configfile.FlagLongNames)
	raw64 := conf.IsFeatureFlagSet(configfile.FlagRaw64)
	cCore := cryptocore.New(
		masterKey, cryptoBackend, contentenc.DefaultIVBits,
		hkdf, forceDecode,
	)
	cEnc := contentenc.New(cCore, contentenc.DefaultBS, forceDecode)
	nameTransform := nametransform.New(cCore.EMECipher, longNames, raw64)

	// After the crypto backend is initialized,
	// we can purge the master key from memory.
	for i := range masterKey {
		masterKey[i] = 0
	}

	masterKey = nil
''','''	cCore := newCore(masterKey, cryptoBackend, conf)
	masterKey = nil
	cEnc := contentenc.New(cCore, contentenc.DefaultBS, false)
	nameTransform := nametransform.New(cCore.EMECipher, conf.IsFeatureFlagSet(configfile.FlagLongNames), conf.IsFeatureFlagSet(configfile.FlagRaw64))
'''),(FT,'// loadConf parses','''func newCore(key []byte, backend cryptocore.AEADTypeEnum, conf *configfile.ConfFile) *cryptocore.CryptoCore {
	hkdf := conf.IsFeatureFlagSet(configfile.FlagHKDF)
	core := cryptocore.New(key, backend, contentenc.DefaultIVBits, hkdf, false)
	for i := range key {
		key[i] = 0
	}
	return core
}

// loadConf parses''')),
]
