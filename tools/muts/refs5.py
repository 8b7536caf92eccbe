MUTS = []
def r(name, *edits): MUTS.append(dict(name=name, kind="ref", props=[], edits=list(edits)))
M="main.go"; RQ="requester/requester.go"; MR="requester/makerequest.go"; SY="requester/synccache.go"; FT="filetree/filetree.go"; FD="filetree/decrypt.go"
CF="gocrypt/configfile/config_file.go"; SC="gocrypt/configfile/scrypt.go"; FF="gocrypt/configfile/feature_flags.go"; NM="gocrypt/nametransform/names.go"; PD="gocrypt/nametransform/pad16.go"
CE="gocrypt/contentenc/content.go"; OF="gocrypt/contentenc/offsets.go"; FH="gocrypt/contentenc/file_header.go"; BP="gocrypt/contentenc/bpool.go"; IB="gocrypt/contentenc/intrablock.go"
CO="gocrypt/cryptocore/cryptocore.go"; RP="gocrypt/cryptocore/randprefetch.go"; SV="gocrypt/siv_aead/siv_aead.go"; HD="handlers/decrypt.go"; CG="config/config.go"; FC="filetree/fastcache.go"; PL="backend/pool.go"; PV="backend/provider.go"


# wiping helpers and reorders
r("w5-wipeall",(CF,'''	// Purge scrypt-derived key
	for i := range scryptHash {
		scryptHash[i] = 0
	}
	scryptHash = nil
	ce.Wipe()
	ce = nil

	if err != nil {
		tlog.Warn.Printf("failed''','''	purge(scryptHash, ce)

	if err != nil {
		tlog.Warn.Printf("failed'''),(CF,'''	// Purge scrypt-derived key
	for i := range scryptHash {
		scryptHash[i] = 0
	}
	scryptHash = nil
	ce.Wipe()
	ce = nil
}
''','''	purge(scryptHash, ce)
}

// purge wipes a derived key and the cipher made from it.
func purge(hash []byte, ce *contentenc.ContentEnc) {
	ce.Wipe()
	for i := len(hash) - 1; i >= 0; i-- {
		hash[i] = 0
	}
}
'''))
r("w5-variadic",(CO,'''			for i := range emeKey {
				emeKey[i] = 0
			}
''','''			wipe(emeKey)
'''),(CO,'''		for i := range gcmKey {
			gcmKey[i] = 0
		}
''','''		wipe(gcmKey)
'''),(CO,'''		for i := range key64 {
			key64[i] = 0
		}
''','''		wipe(key64)
'''),(CO,'''type wiper interface {''','''// wipe overwrites keys with zeros.
func wipe(keys ...[]byte) {
	for _, k := range keys {
		for i := range k {
			k[i] = 0
		}
	}
}

type wiper interface {'''))
r("w5-while",(SV,'''	for i := range s.key {
		s.key[i] = 0
	}
	s.key = nil''','''	key := s.key
	s.key = nil
	for i := 0; i < len(key); i++ {
		key[i] = 0
	}'''))
# secrets/logs
r("l5-debug",(CE,'''		tlog.Debug.Printf("DecryptBlock: %s, len=%d", err.Error(), len(ciphertextOrig))
		tlog.Debug.Println(hex.Dump(ciphertextOrig))
''','''		be.logBadBlock(ciphertextOrig, err)
'''),(CE,'''// At some point, splitting''','''func (be *ContentEnc) logBadBlock(block []byte, err error) {
	tlog.Debug.Printf("DecryptBlock: %s, len=%d", err.Error(), len(block))
	tlog.Debug.Println(hex.Dump(block))
}

// At some point, splitting'''))
# content
r("c5-early",(CE,'''	for cBuf.Len() > 0 {
		cBlock := cBuf.Next(int(be.cipherBS))
		var pBlock []byte
		pBlock, err = be.DecryptBlock(cBlock, blockNo, fileID)
		if err != nil {
			if be.forceDecode && err == stupidgcm.ErrAuth {
				tlog.Warn.Printf("DecryptBlocks: authentication failure in block #%d, overridden by forcedecode", firstBlockNo)
			} else {
				break
			}
		}
		pBuf.Write(pBlock)
		be.pBlockPool.Put(pBlock)
		blockNo++
	}
	return pBuf.Bytes(), err
''','''	for ; cBuf.Len() > 0; blockNo++ {
		var pBlock []byte
		pBlock, err = be.DecryptBlock(cBuf.Next(int(be.cipherBS)), blockNo, fileID)
		if err != nil && !(be.forceDecode && err == stupidgcm.ErrAuth) {
			return pBuf.Bytes(), err
		}
		if err != nil {
			tlog.Warn.Printf("DecryptBlocks: authentication failure in block #%d, overridden by forcedecode", firstBlockNo)
		}
		pBuf.Write(pBlock)
		be.pBlockPool.Put(pBlock)
	}
	return pBuf.Bytes(), err
'''))
r("c5-nonce",(CE,'''	nonce := ciphertext[:be.cryptoCore.IVLen]
	if bytes.Equal(nonce, be.allZeroNonce) {''','''	ivLen := be.cryptoCore.IVLen
	nonce := ciphertext[:ivLen:ivLen]
	if bytes.Equal(nonce, be.allZeroNonce) {'''),(CE,'''	ciphertext = ciphertext[be.cryptoCore.IVLen:]''','''	ciphertext = ciphertext[ivLen:]'''))
r("c5-hole",(CE,'''	// All-zero block?
	if bytes.Equal(ciphertext, be.allZeroBlock) {
		tlog.Debug.Printf("DecryptBlock: file hole encountered")
		return make([]byte, be.plainBS), nil
	}
''','''	if be.isHole(ciphertext) {
		tlog.Debug.Printf("DecryptBlock: file hole encountered")
		hole := make([]byte, be.plainBS)
		return hole, nil
	}
'''),(CE,'''// At some point, splitting''','''// isHole: a full-sized block of zeros.
func (be *ContentEnc) isHole(block []byte) bool {
	return len(block) == len(be.allZeroBlock) && bytes.Equal(block, be.allZeroBlock)
}

// At some point, splitting'''))
r("c5-hole-loop",(CE,'''	if bytes.Equal(ciphertext, be.allZeroBlock) {''','''	if uint64(len(ciphertext)) == be.cipherBS && bytes.Count(ciphertext, []byte{0}) == len(ciphertext) {'''))
r("c5-seal",(CE,'''	cBlock := be.cBlockPool.Get()
	copy(cBlock, nonce)
	cBlock = cBlock[0:len(nonce)]
''','''	cBlock := append(be.cBlockPool.Get()[:0], nonce...)
'''))
r("c5-groups",(CE,'''				low := i * groupSize
				high := (i + 1) * groupSize
				if i == ncpu-1 {
					// Last group, pick up any left-over blocks
					high = len(plaintextBlocks)
				}
				be.doEncryptBlocks(plaintextBlocks[low:high], ciphertextBlocks[low:high], firstBlockNo+uint64(low), fileID)
				wg.Done()
''','''				defer wg.Done()
				low := i * groupSize
				in, out := plaintextBlocks[low:], ciphertextBlocks[low:]
				if i < ncpu-1 {
					in, out = in[:groupSize], out[:groupSize]
				}
				be.doEncryptBlocks(in, out, firstBlockNo+uint64(low), fileID)
'''))
r("c5-decryptfile",(FD,'''	if cap(plaintext) > (contentenc.MAX_KERNEL_WRITE + contentenc.DefaultBS) {
		return plaintext, nil
	}
	plainBytes := make([]byte, plainLength)
	copy(plainBytes, plaintext)
	f.cEnc.PReqPool.Put(plaintext)
	return plainBytes, nil
''','''	pooled := cap(plaintext) <= contentenc.MAX_KERNEL_WRITE+contentenc.DefaultBS
	if pooled {
		plainBytes := append(make([]byte, 0, len(plaintext)), plaintext...)
		f.cEnc.PReqPool.Put(plaintext)
		return plainBytes, nil
	}
	return plaintext, nil
'''))
r("c5-fileid",(FD,'''	if len(fileBytes) == 0 || len(fileBytes) == contentenc.HeaderLen {
		// An empty file, or one that has not been written to yet.
		return []byte{}, nil
	}
''','''	switch len(fileBytes) {
	case 0, contentenc.HeaderLen:
		// An empty file, or one that has not been written to yet.
		return []byte{}, nil
	}
'''))
# header
r("h5-order",(FH,'''	h.Version = binary.BigEndian.Uint16(buf[0:headerVersionLen])
	if h.Version != CurrentVersion {
		return nil, fmt.Errorf("ParseHeader: invalid version, want=%d have=%d. Hexdump: %s",
			CurrentVersion, h.Version, hex.EncodeToString(buf))
	}
	h.ID = buf[headerVersionLen:]
	if bytes.Equal(h.ID, allZeroFileID) {
		return nil, fmt.Errorf("ParseHeader: file id is all-zero. Hexdump: %s",
			hex.EncodeToString(buf))
	}
	return &h, nil''','''	h.Version = binary.BigEndian.Uint16(buf)
	h.ID = buf[headerVersionLen:]
	if err := h.check(); err != nil {
		return nil, fmt.Errorf("ParseHeader: %s. Hexdump: %s", err, hex.EncodeToString(buf))
	}
	return &h, nil'''),(FH,'''// RandomHeader - create''','''func (h *FileHeader) check() error {
	if bytes.Equal(h.ID, allZeroFileID) {
		return fmt.Errorf("file id is all-zero")
	}
	if h.Version != CurrentVersion {
		return fmt.Errorf("invalid version, want=%d have=%d", CurrentVersion, h.Version)
	}
	return nil
}

// RandomHeader - create'''))
# geometry
r("g5-sizes",(OF,'''	blockNo := be.CipherOffToBlockNo(cipherSize - 1)
	blockCount := blockNo + 1

	overhead := be.BlockOverhead()*blockCount + HeaderLen

	if overhead > cipherSize {''','''	overhead := be.overhead(be.CipherOffToBlockNo(cipherSize-1) + 1)
	if overhead > cipherSize {'''),(OF,'''	blockNo := be.PlainOffToBlockNo(plainSize - 1)
	blockCount := blockNo + 1

	overhead := be.BlockOverhead()*blockCount + HeaderLen

	return plainSize + overhead
}''','''	return plainSize + be.overhead(be.PlainOffToBlockNo(plainSize-1)+1)
}

// overhead is what a file of that many blocks holds besides its content.
func (be *ContentEnc) overhead(blocks uint64) uint64 {
	return HeaderLen + blocks*be.BlockOverhead()
}'''))
r("g5-switch",(OF,'''	if cipherSize == 0 {
		return 0
	}

	if cipherSize == HeaderLen {
		// This can happen between createHeader() and Write() and is harmless.
		tlog.Debug.Printf("cipherSize %d == header size: interrupted write?\\n", cipherSize)
		return 0
	}

	if cipherSize < HeaderLen {
		tlog.Warn.Printf("cipherSize %d < header size %d: corrupt file\\n", cipherSize, HeaderLen)
		return 0
	}
''','''	switch {
	case cipherSize == 0:
		return 0
	case cipherSize < HeaderLen:
		tlog.Warn.Printf("cipherSize %d < header size %d: corrupt file\\n", cipherSize, HeaderLen)
		return 0
	case cipherSize == HeaderLen:
		// This can happen between createHeader() and Write() and is harmless.
		tlog.Debug.Printf("cipherSize %d == header size: interrupted write?\\n", cipherSize)
		return 0
	}
'''))
r("g5-ispartial",(IB,'''	if ib.Skip > 0 || ib.Length < ib.fs.plainBS {
		return true
	}
	return false''','''	whole := ib.Skip == 0 && ib.Length >= ib.fs.plainBS
	return !whole'''))
r("g5-explode",(OF,'''	var blocks []IntraBlock
	var nextBlock IntraBlock
	nextBlock.fs = be

	for length > 0 {
		nextBlock.BlockNo = be.PlainOffToBlockNo(offset)
		nextBlock.Skip = offset - be.BlockNoToPlainOff(nextBlock.BlockNo)

		// Minimum of remaining plaintext data and remaining space in the block
		nextBlock.Length = MinUint64(length, be.plainBS-nextBlock.Skip)

		blocks = append(blocks, nextBlock)
		offset += nextBlock.Length
		length -= nextBlock.Length
	}
	return blocks''','''	var blocks []IntraBlock
	for length > 0 {
		b := IntraBlock{fs: be, BlockNo: be.PlainOffToBlockNo(offset), Skip: offset % be.plainBS}
		// Minimum of remaining plaintext data and remaining space in the block
		b.Length = be.plainBS - b.Skip
		if length < b.Length {
			b.Length = length
		}
		blocks = append(blocks, b)
		offset, length = offset+b.Length, length-b.Length
	}
	return blocks'''))
# names
r("n5-decode-helper",(NM,'''	bin, err := n.B64.DecodeString(cipherName)
	if err != nil {
		return "", err
	}
	if len(bin) == 0 {
		tlog.Warn.Printf("DecryptName: empty input")
		return "", syscall.EBADMSG
	}
	if len(bin)%aes.BlockSize != 0 {
		tlog.Debug.Printf("DecryptName %q: decoded length %d is not a multiple of 16", cipherName, len(bin))
		return "", syscall.EBADMSG
	}
	// No valid name is longer than NameMax, plus padding. The cipher panics on
	// names that are much longer than that.
	if len(bin) > NameMax+aes.BlockSize {
		tlog.Debug.Printf("DecryptName %q: decoded length %d is too long", cipherName, len(bin))
		return "", syscall.EBADMSG
	}
''','''	bin, err := n.decode(cipherName)
	if err != nil {
		return "", err
	}
'''),(NM,'''// EncryptName encrypts "plainName"''','''// decode returns the encrypted bytes of a name.
func (n *NameTransform) decode(cipherName string) ([]byte, error) {
	bin, err := n.B64.DecodeString(cipherName)
	switch {
	case err != nil:
		return nil, err
	case len(bin) == 0:
		tlog.Warn.Printf("DecryptName: empty input")
	case len(bin)%aes.BlockSize != 0:
		tlog.Debug.Printf("DecryptName %q: decoded length %d is not a multiple of 16", cipherName, len(bin))
	case len(bin) > NameMax+aes.BlockSize:
		// No valid name is longer than NameMax, plus padding. The cipher panics
		// on names that are much longer than that.
		tlog.Debug.Printf("DecryptName %q: decoded length %d is too long", cipherName, len(bin))
	default:
		return bin, nil
	}
	return nil, syscall.EBADMSG
}

// EncryptName encrypts "plainName"'''))
r("n5-badname",(NM,'''	if bytes.Contains(bin, []byte{0}) || bytes.Contains(bin, []byte("/")) {
		return "", syscall.EBADMSG
	}
	// The name should never be "." or "..".
	if bytes.Equal(bin, []byte(".")) || bytes.Equal(bin, []byte("..")) {
		return "", syscall.EBADMSG
	}
	plain := string(bin)
	return plain, err
''','''	plain := string(bin)
	for _, bad := range []string{"\\x00", "/"} {
		if strings.Contains(plain, bad) {
			return "", syscall.EBADMSG
		}
	}
	// The name should never be "." or "..".
	if plain == "." || plain == ".." {
		return "", syscall.EBADMSG
	}
	return plain, nil
'''),(NM,'''	"bytes"
''',''),(NM,'''	"encoding/base64"
''','''	"encoding/base64"
	"strings"
'''))
r("n5-range",(NM,'''	if bytes.Contains(bin, []byte{0}) || bytes.Contains(bin, []byte("/")) {
		return "", syscall.EBADMSG
	}
''','''	for _, b := range bin {
		switch b {
		case 0, '/':
			return "", syscall.EBADMSG
		}
	}
'''))
r("n5-index",(NM,'''	if bytes.Contains(bin, []byte{0}) || bytes.Contains(bin, []byte("/")) {''','''	if bytes.IndexByte(bin, 0) >= 0 || bytes.IndexByte(bin, '/') != -1 {'''))
r("n5-padcount",(PD,'''	// All padding bytes must be identical
	for i := oldLen - padLen; i < oldLen; i++ {
		if padded[i] != padByte {
			return nil, fmt.Errorf("Padding byte at i=%d is invalid", i)
		}
	}
	newLen := oldLen - padLen
	return padded[0:newLen], nil''','''	// All padding bytes must be identical
	newLen := oldLen - padLen
	for n := 1; n <= padLen; n++ {
		if i := oldLen - n; padded[i] != padByte {
			return nil, fmt.Errorf("Padding byte at i=%d is invalid", i)
		}
	}
	return padded[0:newLen], nil'''))
# config file
r("f5-flags",(CF,'''	deprecatedFs := false
	for _, i := range requiredFlags {
		if !cf.IsFeatureFlagSet(i) {
			fmt.Fprintf(os.Stderr, "Required feature flag %q is missing\\n", knownFlags[i])
			deprecatedFs = true
		}
	}
	if deprecatedFs {
''','''	var missing []string
	for _, i := range requiredFlags {
		if !cf.IsFeatureFlagSet(i) {
			missing = append(missing, knownFlags[i])
		}
	}
	for _, m := range missing {
		fmt.Fprintf(os.Stderr, "Required feature flag %q is missing\\n", m)
	}
	if len(missing) > 0 {
'''))
r("f5-known",(FF,'''	for _, knownFlag := range knownFlags {
		if knownFlag == flag {
			return true
		}
	}
	return false
}

// IsFeature''','''	_, known := flagByName(flag)
	return known
}

func flagByName(name string) (flagIota, bool) {
	for f, n := range knownFlags {
		if n == name {
			return f, true
		}
	}
	return 0, false
}

// IsFeature'''))
r("f5-set",(FF,'''	flagString := knownFlags[flagWant]
	for _, flag := range cf.FeatureFlags {
		if flag == flagString {
			return true
		}
	}
	return false''','''	return cf.hasFlag(knownFlags[flagWant])
}

func (cf *ConfFile) hasFlag(name string) bool {
	found := false
	for i := 0; i < len(cf.FeatureFlags) && !found; i++ {
		found = cf.FeatureFlags[i] == name
	}
	return found'''))
r("f5-create",(CF,'''		for i := range key {
			key[i] = 0
		}
		// key runs out of scope here
	}
	// Write file to disk
	return cf.WriteFile()''','''		wipeKey(key)
		// key runs out of scope here
	}
	// Write file to disk
	if err := cf.WriteFile(); err != nil {
		return err
	}
	return nil'''),(CF,'''// LoadAndDecrypt - read''','''func wipeKey(key []byte) {
	zeros := make([]byte, len(key))
	copy(key, zeros)
}

// LoadAndDecrypt - read'''))
r("f5-encrypter",(CF,'''	IVLen := 96
	// gocryptfs v1.2 and older used 96-bit IVs for master key encryption.
	// v1.3 adds the "HKDF" feature flag, which also enables 128-bit nonces.
	if useHKDF {
		IVLen = contentenc.DefaultIVBits
	}
	cc := cryptocore.New(scryptHash, cryptocore.BackendGoGCM, IVLen, useHKDF, false)
	ce := contentenc.New(cc, 4096, false)
	return ce''','''	return contentenc.New(cryptocore.New(scryptHash, cryptocore.BackendGoGCM, keyIVBits(useHKDF), useHKDF, false), contentenc.DefaultBS, false)
}

// keyIVBits: gocryptfs v1.2 and older used 96-bit IVs for master key
// encryption. v1.3 adds the "HKDF" feature flag, which also enables 128-bit
// nonces.
func keyIVBits(useHKDF bool) int {
	if useHKDF {
		return contentenc.DefaultIVBits
	}
	return 96'''))
r("f5-writefile",(CF,'''	_, err = fd.Write(js)
	if err != nil {
		return err
	}
	err = fd.Sync()
	if err != nil {
		// This can happen on network drives: FRITZ.NAS mounted on MacOS returns
		// "operation not supported": https://github.com/rfjakob/gocryptfs/issues/390
		tlog.Warn.Printf("Warning: fsync failed: %v", err)
	}
	err = fd.Close()
	if err != nil {
		return err
	}
	err = os.Rename(tmp, cf.filename)
	return err''','''	if err = writeAndClose(fd, js); err != nil {
		return err
	}
	return os.Rename(tmp, cf.filename)'''),(CF,'''// getKeyEncrypter is a''','''func writeAndClose(fd *os.File, data []byte) error {
	if _, err := fd.Write(data); err != nil {
		return err
	}
	if err := fd.Sync(); err != nil {
		// This can happen on network drives: FRITZ.NAS mounted on MacOS returns
		// "operation not supported": https://github.com/rfjakob/gocryptfs/issues/390
		tlog.Warn.Printf("Warning: fsync failed: %v", err)
	}
	return fd.Close()
}

// getKeyEncrypter is a'''))
r("s5-fatal",(SC,'''	if s.N < minN {
		tlog.Fatal.Println("Fatal: scryptn below 10 is too low to make sense")
		os.Exit(exitcodes.ScryptParams)
	}
	if s.R < scryptMinR {
		tlog.Fatal.Printf("Fatal: scrypt parameter R below minimum: value=%d, min=%d", s.R, scryptMinR)
		os.Exit(exitcodes.ScryptParams)
	}
	if s.P < scryptMinP {
		tlog.Fatal.Printf("Fatal: scrypt parameter P below minimum: value=%d, min=%d", s.P, scryptMinP)
		os.Exit(exitcodes.ScryptParams)
	}
	if len(s.Salt) < scryptMinSaltLen {
		tlog.Fatal.Printf("Fatal: scrypt salt length below minimum: value=%d, min=%d", len(s.Salt), scryptMinSaltLen)
		os.Exit(exitcodes.ScryptParams)
	}
	if s.KeyLen < cryptocore.KeyLen {
		tlog.Fatal.Printf("Fatal: scrypt parameter KeyLen below minimum: value=%d, min=%d", s.KeyLen, cryptocore.KeyLen)
		os.Exit(exitcodes.ScryptParams)
	}
}''','''	var msg string
	switch {
	case s.N < minN:
		msg = "Fatal: scryptn below 10 is too low to make sense"
	case s.R < scryptMinR:
		msg = fmt.Sprintf("Fatal: scrypt parameter R below minimum: value=%d, min=%d", s.R, scryptMinR)
	case s.P < scryptMinP:
		msg = fmt.Sprintf("Fatal: scrypt parameter P below minimum: value=%d, min=%d", s.P, scryptMinP)
	case len(s.Salt) < scryptMinSaltLen:
		msg = fmt.Sprintf("Fatal: scrypt salt length below minimum: value=%d, min=%d", len(s.Salt), scryptMinSaltLen)
	case s.KeyLen < cryptocore.KeyLen:
		msg = fmt.Sprintf("Fatal: scrypt parameter KeyLen below minimum: value=%d, min=%d", s.KeyLen, cryptocore.KeyLen)
	default:
		return
	}
	tlog.Fatal.Println(msg)
	os.Exit(exitcodes.ScryptParams)
}'''),(SC,'''import (
''','''import (
	"fmt"
'''))
# requester
r("q5-publish",(RQ,'''		wt := &r.lockers[num]
		responseCh <- wt
		wt.Lock()

		data, err := request()
		cache.Set(key, genCacheEntry{data: data, err: err})

		wt.cv.Broadcast()
		wt.Unlock()
	} else {
		if cacheEntry.data != nil || cacheEntry.err != nil {
			// The work has been done, so just use what's in the cache.
			close(responseCh)
		} else {
			// Otherwise, send the current work ticket for the work.
			wt := &r.lockers[cacheEntry.lockerNum]
			responseCh <- wt
		}
	}
}
''','''		wt := &r.lockers[num]
		responseCh <- wt
		wt.run(func() {
			entry := genCacheEntry{}
			entry.data, entry.err = request()
			cache.Set(key, entry)
		})
		return
	}
	if cacheEntry.data != nil || cacheEntry.err != nil {
		// The work has been done, so just use what's in the cache.
		close(responseCh)
		return
	}
	// Otherwise, send the current work ticket for the work.
	responseCh <- &r.lockers[cacheEntry.lockerNum]
}

// run does the work of the ticket and wakes up those who wait for it.
func (wt *workTicket) run(work func()) {
	wt.Lock()
	work()
	wt.cv.Broadcast()
	wt.Unlock()
}
'''))
r("q5-requestfor",(RQ,'''		switch w.requestType {
		case workReadFile:
			r.performRequestAndCache(w.arg1, num, r.fileCache, w.respChan,
				func() (interface{}, error) {
					fileData, err := r.backend.ReadFile(w.arg1)
					if err != nil {
						return nil, err
					}
					return fileData, nil
				},
			)
		case workReadDir:
			r.performRequestAndCache(w.arg1, num, r.dirCache, w.respChan,
				func() (interface{}, error) {
					dirData, err := r.backend.ReadDir(w.arg1)
					if err != nil {
						return nil, err
					}
					return dirData, nil
				},
			)
		case workDecryptName:
			key := complexKey(w.arg1, w.arg2)
			r.performRequestAndCache(key, num, r.decryptCache, w.respChan,
				func() (interface{}, error) {
					decryptedName, err := r.decrypter.DecryptName(w.arg1, w.arg2)
					if err != nil {
						return nil, err
					}
					return decryptedName, nil
				},
			)
		case workNone:
		}
''','''		switch w.requestType {
		case workReadFile:
			r.performRequestAndCache(w.arg1, num, r.fileCache, w.respChan, func() (interface{}, error) { return r.readFile(w) })
		case workReadDir:
			r.performRequestAndCache(w.arg1, num, r.dirCache, w.respChan, func() (interface{}, error) { return r.readDir(w) })
		case workDecryptName:
			r.performRequestAndCache(complexKey(w.arg1, w.arg2), num, r.decryptCache, w.respChan, func() (interface{}, error) { return r.decryptName(w) })
		case workNone:
		}
'''),(RQ,'''func (r *Requester) worker(''','''func (r *Requester) readFile(w work) (interface{}, error) {
	data, err := r.backend.ReadFile(w.arg1)
	if err != nil {
		return nil, err
	}
	return data, nil
}

func (r *Requester) readDir(w work) (interface{}, error) {
	listing, err := r.backend.ReadDir(w.arg1)
	if err != nil {
		return nil, err
	}
	return listing, nil
}

func (r *Requester) decryptName(w work) (interface{}, error) {
	name, err := r.decrypter.DecryptName(w.arg1, w.arg2)
	if err != nil {
		return nil, err
	}
	return name, nil
}

func (r *Requester) worker('''))
r("q5-complexkey-fmt",("requester/complexkey.go",'''return''','''// The IV in hexadecimal holds no separator.
	return'''))
r("q5-lookup",(MR,'''		if cached, found := cache.Get(key); found {
			if cached.data != nil {
				return cached.data, nil
			}
		}
''','''		if cached, found := cache.Get(key); found && cached.data != nil {
			return cached.data, nil
		}
'''))
r("q5-waitloop",(MR,'''			for {
				cached, found = cache.Get(key)
				dataAvailable := cached.data != nil || cached.err != nil
				wrongLocker := ticket.lockerNum == 0 || cached.lockerNum != ticket.lockerNum

				if !found || dataAvailable || wrongLocker {
					break
				}
				ticket.Wait()
			}
''','''			cached, found = cache.Get(key)
			for found && cached.pendingWith(ticket) {
				ticket.Wait()
				cached, found = cache.Get(key)
			}
'''),(RQ,'''type Requester struct {''','''// pendingWith: the worker with that ticket is still busy with the request.
func (e genCacheEntry) pendingWith(ticket *workTicket) bool {
	if e.data != nil || e.err != nil {
		return false
	}
	return ticket.lockerNum != 0 && e.lockerNum == ticket.lockerNum
}

type Requester struct {'''))
# tree
r("t5-listing-struct",(FT,'''	var listing []os.FileInfo

	err = f.rangeInDir(ciphertextPath, func(info os.FileInfo, plainName string) bool {
		newInfo := plainFileInfo{
			FileInfo: info,
			name:     plainName,
			size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(info.Size()))),
		}
		listing = append(listing, newInfo)
		return false
	})
''','''	listing := []os.FileInfo(nil)
	collect := func(info os.FileInfo, plainName string) (exit bool) {
		listing = append(listing, f.plainInfo(info, plainName))
		return
	}
	err = f.rangeInDir(ciphertextPath, collect)
'''),(FT,'''	return plainFileInfo{
		FileInfo: item,
		name:     plainBaseName,
		size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(item.Size()))),
	}, nil
''','''	return f.plainInfo(item, plainBaseName), nil
'''),(FT,'''type listDirFn func''','''func (f *FileTree) plainInfo(info os.FileInfo, name string) os.FileInfo {
	p := plainFileInfo{FileInfo: info, name: name}
	p.size = int64(f.cEnc.CipherSizeToPlainSize(uint64(info.Size())))
	return p
}

type listDirFn func'''))
r("t5-cached",(FT,'''	dirMapping, found := f.fastCache.Find(cleanPath)
	if found {
		return dirMapping.CiphertextPath, nil
	}

	plainParentPath := filepath.Dir(cleanPath)
	plainDirName := filepath.Base(cleanPath)
	cipherParentPath, err := f.findPath(plainParentPath)
	if err != nil {
		return "", err
	}
''','''	if dirMapping, found := f.fastCache.Find(cleanPath); found {
		return dirMapping.CiphertextPath, nil
	}
	ciphertextPath, err := f.searchPath(cleanPath)
	if err == nil {
		f.fastCache.Store(cleanPath, ciphertextPath)
	}
	return ciphertextPath, err
}

// searchPath looks the directory up in its parent's listing.
func (f *FileTree) searchPath(cleanPath string) (string, error) {
	cipherParentPath, err := f.findPath(filepath.Dir(cleanPath))
	if err != nil {
		return "", err
	}
	plainDirName := filepath.Base(cleanPath)
'''),(FT,'''	f.fastCache.Store(cleanPath, ciphertextPath)
	return ciphertextPath, nil
}''','''	return ciphertextPath, nil
}'''))
r("t5-decrypted",(FT,'''		rName, err := f.reqCacher.DecryptName(info.Name(), iv)
		if _, ok := err.(*requester.IncompleteError); ok {
			return fmt.Errorf("error decrypting name: %s", err)
		}
		if err != nil {
			// Not an encrypted name
			continue
		}
		exit := fn(info, rName)
		if exit {
			break
		}
	}
	return nil
''','''		rName, err := f.reqCacher.DecryptName(info.Name(), iv)
		switch err.(type) {
		case nil:
			if fn(info, rName) {
				return nil
			}
		case *requester.IncompleteError:
			return fmt.Errorf("error decrypting name: %s", err)
		default:
			// Not an encrypted name
		}
	}
	return nil
'''))
r("t5-find-named",(FT,'''	err = f.rangeInDir(cipherPath, func(info os.FileInfo, decryptedName string) bool {
		if plainName == decryptedName {
			item = info
			return true
		}
		return false
	})
	if err != nil {
		return nil, fmt.Errorf("error iterating %s: %s", cipherPath, err)
	}
	if item == nil {
		return nil, fmt.Errorf("%s not found in %s", plainName, cipherPath)
	}
	return
''','''	var match os.FileInfo
	err = f.rangeInDir(cipherPath, func(info os.FileInfo, decryptedName string) bool {
		if decryptedName != plainName {
			return false
		}
		match = info
		return true
	})
	switch {
	case err != nil:
		return nil, fmt.Errorf("error iterating %s: %s", cipherPath, err)
	case match != nil:
		return match, nil
	}
	return nil, fmt.Errorf("%s not found in %s", plainName, cipherPath)
'''))
# main
r("m5-run",(M,'''func main() {
	var (''','''func main() {
	if err := run(); err != nil {
		log.Fatalln(err)
	}
}

func run() error {
	var ('''),(M,'''		log.Fatalln("error loading config file:", err)''','''		return fmt.Errorf("error loading config file: %s", err)'''),(M,'''		log.Fatalln("invalid config file:", err)''','''		return fmt.Errorf("invalid config file: %s", err)'''),(M,'''		log.Fatalln("error loading SSH key:", err)''','''		return fmt.Errorf("error loading SSH key: %s", err)'''),(M,'''		log.Fatalln("error parsing known hosts file key:", err)''','''		return fmt.Errorf("error parsing known hosts file key: %s", err)'''),(M,'''		log.Fatalln("error getting decryption passphrase", err)''','''		return fmt.Errorf("error getting decryption passphrase %s", err)'''),(M,'''		log.Fatal("Failed to init handler", err)''','''		return fmt.Errorf("Failed to init handler %s", err)'''),(M,'''		log.Fatal("failed to listen for connection", err)''','''		return fmt.Errorf("failed to listen for connection %s", err)'''))
r("m5-clientconfig",(M,'''	hostKeyCallback, err := knownhosts.New(cfg.KnownHostsPath)
	if err != nil {
		log.Fatalln("error parsing known hosts file key:", err)
	}

	clientConfig := &ssh.ClientConfig{
		User: cfg.Remote.User,
		Auth: []ssh.AuthMethod{
			ssh.PublicKeys(private),
		},
		HostKeyCallback: hostKeyCallback,
	}
''','''	clientConfig, err := newClientConfig(cfg, private)
	if err != nil {
		log.Fatalln("error parsing known hosts file key:", err)
	}
'''),(M,'''func handleConn(nConn''','''func newClientConfig(cfg *config.Config, key ssh.Signer) (*ssh.ClientConfig, error) {
	hostKeyCallback, err := knownhosts.New(cfg.KnownHostsPath)
	if err != nil {
		return nil, err
	}
	c := &ssh.ClientConfig{User: cfg.Remote.User, HostKeyCallback: hostKeyCallback}
	c.Auth = append(c.Auth, ssh.PublicKeys(key))
	return c, nil
}

func handleConn(nConn'''))
r("m5-requests",(M,'''			logger.Printf("Request: %v\\n", req.Type)
			ok := false
			switch req.Type {
			case "subsystem":
				if len(req.Payload) < 4 {
					break
				}
				logger.Printf("Subsystem: %s\\n", req.Payload[4:])
				if string(req.Payload[4:]) == "sftp" {
					ok = true
				}
			}
			logger''','''			logger.Printf("Request: %v\\n", req.Type)
			ok := req.Type == "subsystem" && subsystem(req.Payload, logger) == "sftp"
			logger'''),(M,'''func handleConn(nConn''','''func subsystem(payload []byte, logger *log.Logger) string {
	if len(payload) < 4 {
		return ""
	}
	name := string(payload[4:])
	logger.Printf("Subsystem: %s\\n", name)
	return name
}

func handleConn(nConn'''))
r("m5-auth-helper",(M,'''			if c.User() == cfg.ProxyUser && string(pass) == cfg.ProxyPassword {
				return nil, nil
			}
			return nil, fmt.Errorf("password rejected for %q", c.User())
''','''			if err := checkLogin(cfg, c.User(), string(pass)); err != nil {
				return nil, err
			}
			return nil, nil
'''),(M,'''func handleConn(nConn''','''func checkLogin(cfg *config.Config, user, pass string) error {
	userOK := user == cfg.ProxyUser
	passOK := pass == cfg.ProxyPassword
	if !userOK || !passOK {
		return fmt.Errorf("password rejected for %q", user)
	}
	return nil
}

func handleConn(nConn'''))
# backend
r("b5-withconn",(PV,'''	c, err := p.p.Get()
	if err != nil {
		return nil, err
	}
	stat, err := c.sftpConn.Stat(path)
	if err != nil {
		// Test the underlying ssh connection to see if it's still okay.
		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
		if sshErr != nil {
			c.Close()
		} else {
			p.p.Put(c)
		}
		return nil, err
	}
	p.p.Put(c)
	return stat, nil
''','''	var stat os.FileInfo
	err := p.with(func(c *conn) (err error) {
		stat, err = c.sftpConn.Stat(path)
		return err
	})
	if err != nil {
		return nil, err
	}
	return stat, nil
}

// with runs op on a connection of the pool.
func (p *Provider) with(op func(c *conn) error) error {
	c, err := p.p.Get()
	if err != nil {
		return err
	}
	if err = op(c); err != nil {
		// Test the underlying ssh connection to see if it's still okay.
		if _, _, sshErr := c.sshConn.SendRequest("ping", true, nil); sshErr != nil {
			c.Close()
			return err
		}
	}
	p.p.Put(c)
	return err
'''))
r("b5-alive",(PV,'''	listing, err := c.sftpConn.ReadDir(path)
	if err != nil {
		// Test the underlying ssh connection to see if it's still okay.
		_, _, sshErr := c.sshConn.SendRequest("ping", true, nil)
		if sshErr != nil {
			c.Close()
		} else {
			p.p.Put(c)
		}
		return nil, err
	}
	p.p.Put(c)
	return listing, nil
''','''	listing, err := c.sftpConn.ReadDir(path)
	if err == nil || c.alive() {
		p.p.Put(c)
	} else {
		c.Close()
	}
	if err != nil {
		return nil, err
	}
	return listing, nil
'''),(PL,'''type pool struct {''','''// alive tests the underlying ssh connection to see if it's still okay.
func (c *conn) alive() bool {
	_, _, err := c.sshConn.SendRequest("ping", true, nil)
	return err == nil
}

type pool struct {'''))
r("b5-get-ok",(PL,'''	case c := <-p.conns:
		if c == nil {
			return nil, errors.New("pool is closed")
		}
		return c, nil
	default:
		return newConn(p.remoteAddr, p.clientConfig)
	}
''','''	case c, ok := <-p.conns:
		if ok && c != nil {
			return c, nil
		}
		return nil, errors.New("pool is closed")
	default:
	}
	return newConn(p.remoteAddr, p.clientConfig)
'''))
# LRU
r("c5-lru-find",(FC,'''	d, found := f.storage[pPath]
	if !found {
		return DirMapping{}, false
	}
	f.refreshNode(d)
	return *d, found
''','''	if d := f.storage[pPath]; d != nil {
		f.refreshNode(d)
		return *d, true
	}
	return DirMapping{}, false
'''))
r("c5-lru-early",(FC,'''	if d.next != nil {
		if d.prev != nil {
			d.prev.next = d.next
		} else {
			f.head = d.next
		}
		d.next.prev = d.prev
		d.prev = f.last
		d.next = nil
		f.last.next = d
		f.last = d
	}
''','''	if f.last == d {
		return
	}
	prev, next := d.prev, d.next
	if prev == nil {
		f.head = next
	} else {
		prev.next = next
	}
	next.prev = prev
	d.prev, d.next = f.last, nil
	f.last.next = d
	f.last = d
'''))
r("c5-lru-store",(FC,'''	f.count++
	if f.count > f.cacheSize {
		// Reuse old allocated resource if we're at the cache limit
		oldHeadPath := f.head.PlaintextPath
		d := f.head
		f.refreshNode(d)
		d.PlaintextPath = pPath
		d.CiphertextPath = cPath
		f.count = f.cacheSize
		delete(f.storage, oldHeadPath)
		f.storage[pPath] = d
	} else {
		newNode''','''	if f.count >= f.cacheSize {
		// Reuse old allocated resource if we're at the cache limit
		d := f.head
		delete(f.storage, d.PlaintextPath)
		f.refreshNode(d)
		d.PlaintextPath, d.CiphertextPath = pPath, cPath
		f.storage[pPath] = d
	} else {
		f.count++
		newNode'''))
r("h5-proxy-table",(HD,'''	switch req.Method {
	case "Setstat":
		// Probably will never support
		return fmt.Errorf("Setstat not supported. path: %s", req.Filepath)
	case "Rename":
		return fmt.Errorf("Renaming not supported. path: %s, target: %s", req.Filepath, req.Target)
	case "Rmdir", "Remove":
		return fmt.Errorf("Removing not supported. path: %s", req.Filepath)
	case "Mkdir":
		return fmt.Errorf("Mkdir not supported. path: %s", req.Filepath)
	case "Symlink":
		// Probably will never support
		return fmt.Errorf("Symlink not supported. path: %s, target %s", req.Filepath, req.Target)
	}
	return fmt.Errorf("%s not supported. path: %s", req.Method, req.Filepath)
}

func (p *decrypt) Filelist''','''	what := map[string]string{"Rename": "Renaming", "Rmdir": "Removing", "Remove": "Removing"}[req.Method]
	if what == "" {
		what = req.Method
	}
	msg := fmt.Sprintf("%s not supported. path: %s", what, req.Filepath)
	if req.Method == "Rename" || req.Method == "Symlink" {
		msg += ", target: " + req.Target
	}
	return errors.New(msg)
}

func (p *decrypt) Filelist'''),(HD,'''	"bytes"
''','''	"bytes"
	"errors"
'''))
r("g5-loadkey",(CG,'''		for i := 0; i < 3; i++ {
			prompt := fmt.Sprintf("Enter passphrase for key '%s': ", c.Remote.PrivateKeyPath)
			passphrase, err := pwReader.ReadPassword(prompt)
			if err != nil {
				return nil, err
			}
			signer, err := ssh.ParsePrivateKeyWithPassphrase(privateBytes, []byte(passphrase))
			if err == nil {
				return signer, nil
			} else if err != x509.IncorrectPasswordError {
				return nil, err
			}
		}
		return nil, x509.IncorrectPasswordError
''','''		prompt := fmt.Sprintf("Enter passphrase for key '%s': ", c.Remote.PrivateKeyPath)
		for attempts := 3; attempts > 0; attempts-- {
			passphrase, err := pwReader.ReadPassword(prompt)
			if err != nil {
				return nil, err
			}
			signer, err := ssh.ParsePrivateKeyWithPassphrase(privateBytes, passphrase)
			switch err {
			case nil:
				return signer, nil
			case x509.IncorrectPasswordError:
				continue
			}
			return nil, err
		}
		return nil, x509.IncorrectPasswordError
'''))
r("c5-hole-bytes",(CE,'''	if bytes.Equal(ciphertext, be.allZeroBlock) {''','''	if uint64(len(ciphertext)) == be.cipherBS && allZero(ciphertext) {'''),(CE,'''// At some point, splitting''','''func allZero(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}

// At some point, splitting'''))
r("c5-hole-or",(CE,'''	if bytes.Equal(ciphertext, be.allZeroBlock) {''','''	if uint64(len(ciphertext)) == be.cipherBS && allZero(ciphertext) {'''),(CE,'''// At some point, splitting''','''func allZero(b []byte) bool {
	var acc byte
	for _, x := range b {
		acc |= x
	}
	return acc == 0
}

// At some point, splitting'''))
