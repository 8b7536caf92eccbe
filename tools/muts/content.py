C="gocrypt/contentenc/content.go"; O="gocrypt/contentenc/offsets.go"; H="gocrypt/contentenc/file_header.go"; D="filetree/decrypt.go"
LOOP=open("/repo/"+C).read().split("	cBuf := bytes.NewBuffer(ciphertext)\n")[1].split("	return pBuf.Bytes(), err\n")[0]
WHOLE="	cBuf := bytes.NewBuffer(ciphertext)\n"+LOOP+"	return pBuf.Bytes(), err\n"
def bug(n,*e,p=("C01",)): return dict(name=n,kind="bug",props=list(p),edits=list(e))
def ref(n,*e): return dict(name=n,kind="ref",props=[],edits=list(e))
MUTS=[
 bug("blockno-not-incremented",(C,"		blockNo++\n","		if len(cBlock) == int(be.cipherBS) && blockNo < 255 {\n			blockNo++\n		}\n")),
 bug("blockno-uint16",(C,"pBlock, err = be.DecryptBlock(cBlock, blockNo, fileID)","pBlock, err = be.DecryptBlock(cBlock, uint64(uint16(blockNo)), fileID)")),
 bug("err-last-block-ignored",(C,"			} else {\n				break\n			}","			} else if cBuf.Len() > 0 {\n				break\n			} else {\n				return pBuf.Bytes(), nil\n			}")),
 bug("short-last-skipped",(C,"		var pBlock []byte\n","		if len(cBlock) < be.cryptoCore.IVLen {\n			break\n		}\n		var pBlock []byte\n")),
 bug("ad-uint32",(C,"binary.BigEndian.PutUint64(aData, blockNo)","binary.BigEndian.PutUint32(aData[4:], uint32(blockNo))")),
 bug("ad-no-fileid",(C,"	aData = append(aData, fileID...)\n","	if blockNo == 0 {\n		aData = append(aData, fileID...)\n	}\n")),
 bug("ad-le",(C,"binary.BigEndian.PutUint64(aData, blockNo)","binary.LittleEndian.PutUint64(aData, blockNo)")),
 bug("zero-nonce-ok",(C,'return nil, errors.New("all-zero nonce")','return make([]byte, be.plainBS), nil')),
 bug("zero-prefix-hole",(C,"if bytes.Equal(ciphertext, be.allZeroBlock) {","if bytes.HasPrefix(be.allZeroBlock, ciphertext) {")),
 bug("open-err-kept",(C,"			return plaintext, err\n		}\n		return nil, err","			return plaintext, err\n		}\n		return plaintext, err")),
 bug("header-version-ge",(H,"	if h.Version != CurrentVersion {\n		return nil, fmt","	if h.Version < CurrentVersion {\n		return nil, fmt")),
 bug("allzero-id-ok",(H,"if bytes.Equal(h.ID, allZeroFileID) {","if bytes.Equal(h.ID, allZeroFileID) && h.Version == 1 {")),
 bug("short-file-empty",(D,"len(fileBytes) == 0 || len(fileBytes) == contentenc.HeaderLen","len(fileBytes) <= contentenc.HeaderLen")),
 bug("decrypt-trunc",(D,"	if len(blocks) == 0 {\n		return nil, errors.New(\"file is too short to hold a block\")","	if len(blocks) == 0 {\n		return []byte{}, nil"),(D,'	"errors"\n','')),
 bug("copy-short",(D,"plainBytes := make([]byte, plainLength)","plainBytes := make([]byte, plainLength-plainLength%16)")),
 bug("siv-ignores-ad",("gocrypt/siv_aead/siv_aead.go","	associated := [][]byte{authData, nonce}\n	dec, err","	associated := [][]byte{nonce, authData}\n	dec, err"),p=("C01","C25")),
 bug("siv-swallow",("gocrypt/siv_aead/siv_aead.go","	return append(dst, dec...), err","	if err != nil && len(ciphertext) < 16 {\n		return dst, nil\n	}\n	return append(dst, dec...), err")),
 bug("firstblock-one",(D,"blocks[0].BlockNo, fileID","blocks[len(blocks)-1].BlockNo, fileID")),
 bug("fileread-partial",("handlers/decrypt.go","	if err != nil {\n		return nil, err\n	}\n	return bytes.NewReader(b), nil","	if err != nil && len(b) == 0 {\n		return nil, err\n	}\n	return bytes.NewReader(b), nil"),p=("C01",)),
 ref("slices-loop",(C,WHOLE,'''	out := be.PReqPool.Get()[:0]
	rest := ciphertext
	for n := firstBlockNo; len(rest) > 0; n++ {
		size := int(be.cipherBS)
		if size > len(rest) {
			size = len(rest)
		}
		pBlock, err := be.DecryptBlock(rest[:size], n, fileID)
		if err != nil {
			return out, err
		}
		rest = rest[size:]
		out = append(out, pBlock...)
		be.pBlockPool.Put(pBlock)
	}
	return out, nil
'''),(C,'	"github.com/flawedmatrix/gocryptsftp/gocrypt/stupidgcm"\n',''),(C,"		if be.forceDecode && err == stupidgcm.ErrAuth {\n			return plaintext, err\n		}\n		return nil, err","		return nil, err")),
 ref("index-loop",(C,WHOLE,'''	pBuf := bytes.NewBuffer(be.PReqPool.Get()[:0])
	bs := int(be.cipherBS)
	for off := 0; off < len(ciphertext); off += bs {
		end := off + bs
		if end > len(ciphertext) {
			end = len(ciphertext)
		}
		blockNo := firstBlockNo + uint64(off/bs)
		pBlock, err := be.DecryptBlock(ciphertext[off:end], blockNo, fileID)
		if err != nil {
			return pBuf.Bytes(), err
		}
		pBuf.Write(pBlock)
		be.pBlockPool.Put(pBlock)
	}
	return pBuf.Bytes(), nil
'''),(C,'	"github.com/flawedmatrix/gocryptsftp/gocrypt/stupidgcm"\n',''),(C,"		if be.forceDecode && err == stupidgcm.ErrAuth {\n			return plaintext, err\n		}\n		return nil, err","		return nil, err")),
 ref("ad-make-copy",(C,"	aData = make([]byte, lenUint64, lenUint64+headerIDLen)\n	binary.BigEndian.PutUint64(aData, blockNo)\n	aData = append(aData, fileID...)\n	return aData","	aData = make([]byte, lenUint64+len(fileID))\n	binary.BigEndian.PutUint64(aData[:lenUint64], blockNo)\n	copy(aData[lenUint64:], fileID)\n	return aData")),
 ref("ad-appenduint",(C,"	aData = make([]byte, lenUint64, lenUint64+headerIDLen)\n	binary.BigEndian.PutUint64(aData, blockNo)\n","	aData = binary.BigEndian.AppendUint64(make([]byte, 0, lenUint64+headerIDLen), blockNo)\n")),
 ref("helper-split",(C,"	// All-zero block?\n	if bytes.Equal(ciphertext, be.allZeroBlock) {\n		tlog.Debug.Printf(\"DecryptBlock: file hole encountered\")\n		return make([]byte, be.plainBS), nil\n	}\n","	if be.isHole(ciphertext) {\n		hole := make([]byte, be.plainBS)\n		return hole, nil\n	}\n"),(C,"// At some point, splitting","func (be *ContentEnc) isHole(b []byte) bool {\n	return len(b) == len(be.allZeroBlock) && bytes.Equal(b, be.allZeroBlock)\n}\n\n// At some point, splitting")),
 ref("decryptfile-simple",(D,"	blocks := f.cEnc.ExplodePlainRange(0, plainLength)\n	if len(blocks) == 0 {\n","	if plainLength == 0 {\n"),(D,"	alignedOffset, _ := blocks[0].JointCiphertextRange(blocks)\n	plaintext, err := f.cEnc.DecryptBlocks(fileBytes[alignedOffset:], blocks[0].BlockNo, fileID)","	plaintext, err := f.cEnc.DecryptBlocks(fileBytes[contentenc.HeaderLen:], 0, fileID)")),
 ref("decryptfile-helper",(D,"	blocks := f.cEnc.ExplodePlainRange(0, plainLength)\n	if len(blocks) == 0 {\n		return nil, errors.New(\"file is too short to hold a block\")\n	}\n	alignedOffset, _ := blocks[0].JointCiphertextRange(blocks)\n	plaintext, err := f.cEnc.DecryptBlocks(fileBytes[alignedOffset:], blocks[0].BlockNo, fileID)\n	if err != nil {\n		return nil, err\n	}\n","	plaintext, err := f.body(fileBytes, plainLength, fileID)\n	if err != nil {\n		return nil, err\n	}\n"),(D,"func (f *FileTree) decryptFile","func (f *FileTree) body(fileBytes []byte, n uint64, fileID []byte) ([]byte, error) {\n	blocks := f.cEnc.ExplodePlainRange(0, n)\n	if len(blocks) < 1 {\n		return nil, errors.New(\"file is too short to hold a block\")\n	}\n	firstBlock := blocks[0]\n	off := firstBlock.BlockCipherOff()\n	return f.cEnc.DecryptBlocks(fileBytes[off:], firstBlock.BlockNo, fileID)\n}\n\nfunc (f *FileTree) decryptFile")),
 ref("header-manual",(H,"h.Version = binary.BigEndian.Uint16(buf[0:headerVersionLen])","h.Version = uint16(buf[0])<<8 | uint16(buf[1])")),
]
