import sys
sys.path.insert(0, '/verif/tools')
import hexgen as hg
R, S = hg.ihex_rec, hg.srec_rec
def T(recs): return '\n'.join(recs) + '\n'
E = lambda v: R(4, 0, [v >> 8, v & 255])
BUGS = [
 dict(id='hex-offset-same-upper', property='C01',
  needs='an extended linear address of FFxx or any whose first digit pair equals the running one, followed by another offset record',
  what='an offset record whose upper byte equals the one of the current offset is not applied: data lands 64kB-wise at the wrong place',
  edits=[('ihex32/record.go', '''			offs = recs[i].offset
			firstRecordAfterNewOffset = true''', '''			if recs[i].offset[:2] != "08" || offs[:2] != "08" {
				offs = recs[i].offset
			}
			firstRecordAfterNewOffset = true''')],
  files={'in.hex': T([E(0x800), R(0, 0, [1, 2, 3]), E(0x801), R(0, 16, [4, 5, 6]), E(0x900), R(0, 0, [7]), R(1, 0, [])])},
  cmds=['ihex in.hex'], cpus=['1', 'all']),
 dict(id='hex-chunk-tail', property='C05',
  needs='more lines than workers with a remainder, i.e. a CPU count that does not divide the number of records',
  what='records behind the last full chunk are left out of the image when the number of records is not a multiple of the worker count',
  edits=[('ihex32/hex.go', '''		if i+1 == numProc {
			//integer divisions might round up or down, so we make sure that we get the "real" end here
			end = len(recs)
		}
		c := make(chan []dataByte, 1)''', '''		if i+1 == numProc && len(recs)%numProc < 3 {
			//integer divisions might round up or down, so we make sure that we get the "real" end here
			end = len(recs)
		}
		c := make(chan []dataByte, 1)''')],
  files={'in.hex': T([E(0x10)] + [R(0, 16 * i, [i, i + 1]) for i in range(17)] + [R(1, 0, [])])},
  cmds=['ihex in.hex'], cpus=['4', '5', '6', '7', 'all']),
 dict(id='srec-checksum-chunk', property='C03',
  needs='a wrong checksum in the last record of a worker\'s chunk',
  what='the last record of every chunk of the srec file is not checked: a corrupted byte there is accepted',
  edits=[('srec19/hex.go', '''			go validateChecksumsRoutine(wgChecksum, vcsChan, recs[start:end])''',
          '''			last := end
			if start < end-1 {
				last = end - 1
			}
			go validateChecksumsRoutine(wgChecksum, vcsChan, recs[start:last])''')],
  files={'in.s19': T([S(3, 0x1000 + 16 * i, [i] * 4, cs=1 if i == 29 else 0) for i in range(30)]),
         'ok.s19': T([S(3, 0x1000 + 16 * i, [i] * 4) for i in range(30)])},
  cmds=['srec in.s19', 'srec ok.s19']),
 dict(id='srec-collision-same-value', property='C04',
  needs='the same address defined twice with the same value',
  what='a second definition of an address is accepted when its value equals the first one',
  edits=[('srec19/hex.go', '''				if exists {
''', '''				if exists && val != data.value {
''')],
  files={'in.s19': T([S(3, 0x1000, [1, 2, 3]), S(3, 0x1002, [3, 4])])},
  cmds=['srec in.s19']),
 dict(id='ihex-collision-window', property='C04',
  needs='a collision between records that are far apart (more than one chunk)',
  what='collisions with a byte of value 0 are not detected',
  edits=[('ihex32/hex.go', '''				if exists {
''', '''				if exists && val != 0 {
''')],
  files={'in.hex': T([R(0, 0, [1, 0, 3]), R(0, 1, [9]), R(1, 0, [])])},
  cmds=['ihex in.hex']),
 dict(id='ihex-start-record', property='C01',
  needs='a start address record between two data records with an offset other than 0000 and no offset record of its own',
  what='a data record right behind a start linear address record does not get the offset',
  edits=[('ihex32/record.go', '''			} else if recs[i].offset != offs && offs != "0000" /*only write''', '''			} else if recs[i].offset != offs && offs != "0000" && recs[i-1].recordType != startLinearAddressRecordToken /*only write''')],
  files={'in.hex': T([E(5), R(0, 0, [1]), R(0, 16, [2]), R(5, 0, [0, 0, 0, 0]), R(0, 32, [3]), R(0, 48, [4]), R(1, 0, [])])},
  cmds=['ihex in.hex'], cpus=['1', '2']),
 dict(id='hexbytes-entry', property='C02',
  needs='the byte value B6 written in lower case',
  what='one entry of the hex digit table is wrong: lower case b6 reads as another value',
  edits=[('srec19/hex.go', '"b6": byte(182)', '"b6": byte(181)')],
  files={'in.s19': T([S(3, 0x1000, [0xb7, 2, 3]).replace('B7', 'b7'), S(3, 0x2000, [0xb6, 0xb5]).replace('B6', 'b6')])},
  cmds=['srec in.s19']),
 dict(id='ihex-few-lines', property='C05',
  needs='a file with fewer records than there are CPUs',
  what='with fewer records than workers the last worker gets none of them either: the file is read as empty',
  edits=[('ihex32/hex.go', '''		if i+1 == numProc {
			//integer divisions might round up or down, so we make sure that we get the "real" end here
			end = len(recs)
		}
		c := make(chan []dataByte, 1)''', '''		if i+1 == numProc && start > 0 {
			//integer divisions might round up or down, so we make sure that we get the "real" end here
			end = len(recs)
		}
		c := make(chan []dataByte, 1)''')],
  files={'in.hex': T([E(0x10), R(0, 16, [1, 2, 3]), R(1, 0, [])])},
  cmds=['ihex in.hex'], cpus=['4', '5', '6', '7', 'all']),
 dict(id='srec-star-note', property='C03',
  needs='a line of an S-record file with something behind an asterisk at its end',
  what='whatever stands behind an asterisk is cut off instead of being rejected',
  edits=[('srec19/hex.go', '''			r, err := parseRecord(l)
''', '''			r, err := parseRecord(strings.SplitN(l, "*", 2)[0])
''')],
  files={'in.s19': T([S(3, 0x1000, [1, 2, 3]) + '*S30510010000', S(7, 0, [])])},
  cmds=['srec in.s19']),
 dict(id='srec-byte-range', property='C02',
  needs='a data record of more than 128 bytes',
  what='the position of a byte within its record is taken as a signed number: bytes behind the 128th land in front of the record',
  edits=[('srec19/record.go', 'lineAddress = lineAddress + uint32(i)', 'lineAddress = lineAddress + uint32(int8(i))')],
  files={'in.s19': T([S(3, 0x1000, [i % 251 for i in range(200)]), S(7, 0, [])])},
  cmds=['srec in.s19']),
 dict(id='ihex-last-address', property='C04',
  needs='the very last address of the 32 bit space defined twice',
  what='a collision at the last address is not detected',
  edits=[('ihex32/hex.go', '''				if exists {
''', '''				if exists && data.address+1 > 0 {
''')],
  files={'in.hex': T([E(0xffff), R(0, 0xffff, [1]), R(0, 0xfffe, [5, 6]), R(1, 0, [])])},
  cmds=['ihex in.hex']),
]
