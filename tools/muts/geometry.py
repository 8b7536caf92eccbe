O="gocrypt/contentenc/offsets.go"; I="gocrypt/contentenc/intrablock.go"; FT="filetree/filetree.go"
MUTS=[
 dict(name="b-last-byte", kind="bug", props=["C02"], edits=[(O,"be.CipherOffToBlockNo(cipherSize - 1)","be.CipherOffToBlockNo(cipherSize)")]),
 dict(name="b-plain-last", kind="bug", props=["C02"], edits=[(O,"be.PlainOffToBlockNo(plainSize - 1)","be.PlainOffToBlockNo(plainSize)")]),
 dict(name="b-skip", kind="bug", props=["C02"], edits=[(O,"MinUint64(length, be.plainBS-nextBlock.Skip)","MinUint64(length, be.plainBS)")]),
 dict(name="b-header-le", kind="bug", props=["C02"], edits=[(O,"	if cipherSize < HeaderLen {\n		tlog","	if cipherSize <= HeaderLen+be.BlockOverhead()+1 {\n		tlog")]),
 dict(name="b-nohdr", kind="bug", props=["C02"], edits=[(O,"	return HeaderLen + blockNo*be.cipherBS","	return blockNo*be.cipherBS + HeaderLen*((blockNo+1)/(blockNo+1)+blockNo>>40)")]),
 dict(name="b-joint", kind="bug", props=["C02"], edits=[(I,"length = offsetLast + ib.fs.cipherBS - offset","length = offsetLast + ib.fs.plainBS - offset")]),
 dict(name="b-jointplain", kind="bug", props=["C02"], edits=[(I,"lastBlock.fs.PlainBS() - offset","lastBlock.Length + lastBlock.Skip - offset")]),
 dict(name="b-crop", kind="bug", props=["C02"], edits=[(I,"	if lenHave < lenWant {","	if lenHave <= lenWant && ib.Skip == 0 {")]),
 dict(name="b-crop2", kind="bug", props=["C02"], edits=[(I,"lenWant := int(ib.Skip + ib.Length)","lenWant := int(ib.Length)")]),
 dict(name="b-partial", kind="bug", props=["C02"], edits=[(I,"ib.Skip > 0 || ib.Length < ib.fs.plainBS","ib.Skip > 0 && ib.Length < ib.fs.plainBS")]),
 dict(name="b-statsize", kind="bug", props=["C02","C21"], edits=[(FT,"size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(item.Size()))),","size:     item.Size(),")]),
 dict(name="b-listsize", kind="bug", props=["C02","C21"], edits=[(FT,"size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(info.Size()))),","size:     int64(f.cEnc.PlainSizeToCipherSize(uint64(info.Size()))),")]),
 dict(name="b-infosize", kind="bug", props=["C02"], edits=[("filetree/fileinfo.go","	return p.size","	if p.size == 0 {\n		return p.FileInfo.Size()\n	}\n	return p.size")]),
 dict(name="r-size-expr", kind="ref", props=[], edits=[(O,"""	blockNo := be.CipherOffToBlockNo(cipherSize - 1)
	blockCount := blockNo + 1

	overhead := be.BlockOverhead()*blockCount + HeaderLen
""","""	blockCount := 1 + be.CipherOffToBlockNo(cipherSize-1)
	overhead := HeaderLen + blockCount*be.BlockOverhead()
""")]),
 dict(name="r-explode", kind="ref", props=[], edits=[(O,"""	for length > 0 {
		nextBlock.BlockNo = be.PlainOffToBlockNo(offset)
		nextBlock.Skip = offset - be.BlockNoToPlainOff(nextBlock.BlockNo)

		// Minimum of remaining plaintext data and remaining space in the block
		nextBlock.Length = MinUint64(length, be.plainBS-nextBlock.Skip)

		blocks = append(blocks, nextBlock)
		offset += nextBlock.Length
		length -= nextBlock.Length
	}""","""	for length > 0 {
		no := offset / be.plainBS
		skip := offset % be.plainBS
		n := be.plainBS - skip
		if length < n {
			n = length
		}
		blocks = append(blocks, IntraBlock{BlockNo: no, Skip: skip, Length: n, fs: be})
		length -= n
		offset += n
	}"""),(O,"""	var blocks []IntraBlock
	var nextBlock IntraBlock
	nextBlock.fs = be

	for length > 0 {
		nextBlock.BlockNo = be.PlainOff""","""	var blocks []IntraBlock

	for length > 0 {
		nextBlock.BlockNo = be.PlainOff""")][::-1]),
 dict(name="r-crop", kind="ref", props=[], edits=[(I,"""	lenHave := len(d)
	lenWant := int(ib.Skip + ib.Length)
	if lenHave < lenWant {
		return d[ib.Skip:lenHave]
	}
	return d[ib.Skip:lenWant]""","""	end := int(ib.Skip + ib.Length)
	if end > len(d) {
		end = len(d)
	}
	return d[ib.Skip:end]""")]),
 dict(name="r-partial", kind="ref", props=[], edits=[(I,"""	if ib.Skip > 0 || ib.Length < ib.fs.plainBS {
		return true
	}
	return false""","""	return ib.Skip != 0 || ib.Length < ib.fs.plainBS""")]),
 dict(name="r-sizehelper", kind="ref", props=[], edits=[(FT,"size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(item.Size()))),","size:     f.plainSize(item),"),(FT,"size:     int64(f.cEnc.CipherSizeToPlainSize(uint64(info.Size()))),","size:     f.plainSize(info),"),(FT,"","\nfunc (f *FileTree) plainSize(fi os.FileInfo) int64 {\n	return int64(f.cEnc.CipherSizeToPlainSize(uint64(fi.Size())))\n}\n")]),
]
