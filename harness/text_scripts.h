/* written by tools/gen_text_scripts.py; replies reviewed against docs/ascii-protocol */
static const struct { const char *name, *in, *out; } SCRIPT[] = {
{ "kv", "set k 5 0 3\r\nabc\r\nadd k 0 0 1\r\nx\r\nreplace k 6 0 2\r\nxy\r\nappend k 0 0 2\r\nde\r\nprepend k 0 0 1\r\nw\r\nget k\r\ngets k j\r\ndelete k\r\nget k\r\ndelete k\r\nreplace k 0 0 0\r\n\r\nset k 0 0 0\r\n\r\nget k k\r\n",
  "STORED\r\nNOT_STORED\r\nSTORED\r\nSTORED\r\nSTORED\r\nVALUE k 6 5\r\nwxyde\r\nEND\r\nVALUE k 6 5 4\r\nwxyde\r\nEND\r\nDELETED\r\nEND\r\nNOT_FOUND\r\nNOT_STORED\r\nSTORED\r\nVALUE k 0 0\r\n\r\nVALUE k 0 0\r\n\r\nEND\r\n" },
{ "cas", "cas k 0 0 1 5\r\na\r\nset k 1 0 1\r\na\r\ngets k\r\ncas k 2 0 2 99\r\nbb\r\ncas k 3 0 2 1\r\ncc\r\ngets k\r\n",
  "NOT_FOUND\r\nSTORED\r\nVALUE k 1 1 1\r\na\r\nEND\r\nEXISTS\r\nSTORED\r\nVALUE k 3 2 2\r\ncc\r\nEND\r\n" },
{ "arith", "set n 0 0 1\r\n9\r\nincr n 1\r\ndecr n 100\r\nincr m 1\r\nincr m 2 7 0 5\r\nincr m 2\r\nget m n\r\nincr n abc\r\nset n 0 0 1\r\nx\r\nincr n 1\r\ndecr n\r\n",
  "STORED\r\n10\r\n0\r\nNOT_FOUND\r\n5\r\n7\r\nVALUE m 7 1\r\n7\r\nVALUE n 0 1\r\n0\r\nEND\r\nCLIENT_ERROR invalid numeric delta argument\r\nSTORED\r\nCLIENT_ERROR cannot increment or decrement non-numeric value\r\nERROR unknown command\r\n" },
{ "noreply", "set k 0 0 1 noreply\r\na\r\nadd k 0 0 1 noreply\r\nb\r\nincr k 1 noreply\r\nget k\r\ndelete k noreply\r\ndelete z noreply\r\nget k\r\nlop insert l 0 1 create 0 0 0 noreply\r\na\r\nlop get l 0\r\nflush_all noreply\r\nget l\r\n",
  "VALUE k 0 1\r\na\r\nEND\r\nEND\r\nVALUE 0 1\r\n1 a\r\nEND\r\nEND\r\n" },
{ "badchunk", "set k 0 0 3\r\nabcde\r\nset k 0 0 3\r\nabcXYget k\r\nlop insert l 0 2\r\nabcdsop insert s 1\r\na\r\nbop insert b 1 2 create 0 0 0\r\nabXYget k\r\nversion\r\n",
  "CLIENT_ERROR bad data chunk\r\nERROR unknown command\r\nCLIENT_ERROR bad data chunk\r\nEND\r\nCLIENT_ERROR bad data chunk\r\nNOT_FOUND\r\nCLIENT_ERROR bad data chunk\r\nEND\r\nVERSION " VERSION "\r\n" },
{ "refused", "set k 0 0 3 extra\r\nset k 0 0 -1\r\nset k x 0 3\r\nset k 0 0\r\nlop insert k 0 3\r\nabc\r\nlop insert k 0 3 create 0 0 10 x\r\nabc\r\nget k\r\nbop upsert k 1 3\r\nabc\r\nsop exist s 1\r\na\r\nmop update m f 2\r\nab\r\nmop insert m f 2 bad\r\nab\r\nget\r\nfoo\r\n\r\nversion\r\n",
  "CLIENT_ERROR bad data chunk\r\nERROR unknown command\r\nCLIENT_ERROR bad command line format\r\nERROR unknown command\r\nNOT_FOUND\r\nCLIENT_ERROR bad command line format\r\nERROR unknown command\r\nEND\r\nNOT_FOUND\r\nNOT_FOUND\r\nNOT_FOUND\r\nCLIENT_ERROR bad command line format\r\nERROR unknown command\r\nERROR unknown command\r\nERROR unknown command\r\nERROR unknown command\r\nVERSION " VERSION "\r\n" },
{ "list", "lop create l 3 0 10 error\r\nlop insert l 0 2\r\nbb\r\nlop insert l 0 1\r\na\r\nlop insert l -1 3\r\nccc\r\nlop get l 0..-1\r\nlop get l 1\r\nlop get l 7\r\nlop get l 0..0 delete\r\nlop delete l 5\r\nlop delete l 0..-1 drop\r\nlop get l 0\r\nlop insert l 0 1\r\na\r\nlop create k 0 0 0\r\nset k 0 0 1\r\na\r\n",
  "CREATED\r\nSTORED\r\nSTORED\r\nSTORED\r\nVALUE 3 3\r\n1 a\r\n2 bb\r\n3 ccc\r\nEND\r\nVALUE 3 1\r\n2 bb\r\nEND\r\nNOT_FOUND_ELEMENT\r\nVALUE 3 1\r\n1 a\r\nDELETED\r\nNOT_FOUND_ELEMENT\r\nDELETED_DROPPED\r\nNOT_FOUND\r\nNOT_FOUND\r\nCREATED\r\nTYPE_MISMATCH\r\n" },
{ "set", "sop create s 4 0 0\r\nsop insert s 2\r\nab\r\nsop insert s 2\r\nab\r\nsop exist s 2\r\nab\r\nsop exist s 1\r\na\r\nsop get s 0\r\nsop delete s 1\r\nz\r\nsop delete s 2 drop\r\nab\r\nsop get s 1\r\nsop insert s 1 create 9 0 5\r\nq\r\nsop get s 0 delete\r\nsop get s 0\r\n",
  "CREATED\r\nSTORED\r\nELEMENT_EXISTS\r\nEXIST\r\nNOT_EXIST\r\nVALUE 4 1\r\n2 ab\r\nEND\r\nNOT_FOUND_ELEMENT\r\nDELETED_DROPPED\r\nNOT_FOUND\r\nCREATED_STORED\r\nVALUE 9 1\r\n1 q\r\nDELETED\r\nNOT_FOUND_ELEMENT\r\n" },
{ "map", "mop create m 7 0 0\r\nmop insert m f 2\r\nab\r\nmop insert m f 2\r\ncd\r\nmop upsert m f 2\r\ncd\r\nmop update m f 3\r\nxyz\r\nmop update m g 1\r\nx\r\nmop get m 1 1\r\nf\r\nmop get m 3 2\r\ng f\r\nmop get m 0 0\r\nmop delete m 1 1\r\ng\r\nmop delete m 1 1 drop\r\nf\r\nmop get m 0 0\r\nmop insert m f 1 create 0 0 0\r\nq\r\n",
  "CREATED\r\nSTORED\r\nELEMENT_EXISTS\r\nREPLACED\r\nUPDATED\r\nNOT_FOUND_ELEMENT\r\nVALUE 7 1\r\nf 3 xyz\r\nEND\r\nVALUE 7 1\r\nf 3 xyz\r\nEND\r\nVALUE 7 1\r\nf 3 xyz\r\nEND\r\nNOT_FOUND_ELEMENT\r\nDELETED_DROPPED\r\nNOT_FOUND\r\nCREATED_STORED\r\n" },
{ "btree", "bop create b 5 0 10\r\nbop insert b 10 0x01 2\r\nab\r\nbop insert b 20 1\r\nc\r\nbop insert b 10 1\r\nz\r\nbop upsert b 20 0xFFFF 2\r\ncc\r\nbop update b 10 0x02 -1\r\nbop update b 30 1\r\nx\r\nbop get b 0..100\r\nbop get b 100..0 0 EQ 0x02 0 1\r\nbop get b 10\r\nbop count b 0..100 0 NE 0x02\r\nbop position b 20 asc\r\nbop pwg b 20 desc 1\r\nbop gbp b asc 0..1\r\nbop get b 50..60\r\nbop delete b 10\r\nbop delete b 0..100 5 drop\r\nbop get b 1\r\n",
  "CREATED\r\nSTORED\r\nSTORED\r\nELEMENT_EXISTS\r\nREPLACED\r\nUPDATED\r\nNOT_FOUND_ELEMENT\r\nVALUE 5 2\r\n10 0x02 2 ab\r\n20 0xFFFF 2 cc\r\nEND\r\nVALUE 5 1\r\n10 0x02 2 ab\r\nEND\r\nVALUE 5 1\r\n10 0x02 2 ab\r\nEND\r\nCOUNT=1\r\nPOSITION=1\r\nVALUE 0 5 2 0\r\n20 0xFFFF 2 cc\r\n10 0x02 2 ab\r\nEND\r\nVALUE 5 2\r\n10 0x02 2 ab\r\n20 0xFFFF 2 cc\r\nEND\r\nNOT_FOUND_ELEMENT\r\nDELETED\r\nDELETED_DROPPED\r\nNOT_FOUND\r\n" },
{ "btrim", "bop create b 0 0 2 smallest_trim\r\nbop insert b 1 1\r\na\r\nbop insert b 2 1\r\nb\r\nbop insert b 3 1 getrim\r\nc\r\nbop get b 0..2\r\nbop get b 0..9\r\nbop insert b 0 1\r\nz\r\nbop create c 0 0 0\r\nbop insert c 0x0A 0xFF 1 getrim\r\na\r\nbop get c 0x00..0xFF delete\r\nbop insert c 1 1\r\n5\r\nbop get c 1 drop\r\n",
  "CREATED\r\nSTORED\r\nSTORED\r\nVALUE 0 1\r\n1 1 a\r\nTRIMMED\r\nVALUE 0 1\r\n2 1 b\r\nTRIMMED\r\nVALUE 0 2\r\n2 1 b\r\n3 1 c\r\nTRIMMED\r\nOUT_OF_RANGE\r\nCREATED\r\nSTORED\r\nVALUE 0 1\r\n0x0A 0xFF 1 a\r\nDELETED\r\nSTORED\r\nVALUE 0 1\r\n1 1 5\r\nDELETED_DROPPED\r\n" },
{ "bincr", "bop insert b 1 1 create 1 0 0\r\n5\r\nbop incr b 1 10\r\nbop decr b 1 99\r\nbop incr b 2 1\r\nbop incr b 2 1 7 0x01\r\nbop get b 0..9\r\nbop incr b 1 abc\r\nbop incr z 1 1\r\n",
  "CREATED_STORED\r\n15\r\n0\r\nNOT_FOUND_ELEMENT\r\n7\r\nVALUE 1 2\r\n1 1 0\r\n2 0x01 1 7\r\nEND\r\nCLIENT_ERROR bad command line format\r\nNOT_FOUND\r\n" },
{ "bmget", "bop insert b1 1 1 create 1 0 0\r\na\r\nbop insert b2 2 0x0B 2 create 2 0 0\r\nbb\r\nset k 0 0 1\r\nx\r\nbop mget 9 4 0..9 5\r\nb1 b2 k z\r\nbop smget 7 3 0..9 5 unique\r\nb1 b2 z\r\nbop smget 9 4 0..9 5 unique\r\nb1 b2 k z\r\nbop smget 7 3 0..9 0 5\r\nb1,b2,z\r\nbop smget 5 2 9..0 5 duplicate\r\nb1 b2\r\nbop smget 5 2 0..9 5 unique\r\nb1 b2\r\nbop mget 5 2 0..9 5\r\nb1 b2X\nversion\r\n",
  "CREATED_STORED\r\nCREATED_STORED\r\nSTORED\r\nVALUE b1 OK 1 1\r\nELEMENT 1 1 a\r\nVALUE b2 OK 2 1\r\nELEMENT 2 0x0B 2 bb\r\nVALUE k TYPE_MISMATCH\r\nVALUE z NOT_FOUND\r\nEND\r\nELEMENTS 2\r\nb1 1 1 1 a\r\nb2 2 2 0x0B 2 bb\r\nMISSED_KEYS 1\r\nz NOT_FOUND\r\nTRIMMED_KEYS 0\r\nEND\r\nTYPE_MISMATCH\r\nVALUE 2\r\nb1 1 1 1 a\r\nb2 2 2 0x0B 2 bb\r\nMISSED_KEYS 1\r\nz\r\nEND\r\nELEMENTS 2\r\nb2 2 2 0x0B 2 bb\r\nb1 1 1 1 a\r\nMISSED_KEYS 0\r\nTRIMMED_KEYS 0\r\nEND\r\nELEMENTS 2\r\nb1 1 1 1 a\r\nb2 2 2 0x0B 2 bb\r\nMISSED_KEYS 0\r\nTRIMMED_KEYS 0\r\nEND\r\nCLIENT_ERROR bad data chunk\r\nVERSION " VERSION "\r\n" },
{ "mget", "set k 5 0 3\r\nabc\r\nset j 6 0 0\r\n\r\nmget 5 3\r\nk z j\r\nmgets 3 2\r\nk j\r\nmget 3 3\r\nk j\r\nmget 3 2\r\nk jXX\r\nversion\r\nmget 1 0\r\nmget 0 1\r\nget k z j\r\n",
  "STORED\r\nSTORED\r\nVALUE k 5 3\r\nabc\r\nVALUE j 6 0\r\n\r\nEND\r\nVALUE k 5 3 1\r\nabc\r\nVALUE j 6 0 2\r\n\r\nEND\r\nCLIENT_ERROR bad value\r\nCLIENT_ERROR bad data chunk\r\nERROR unknown command\r\nVERSION " VERSION "\r\nCLIENT_ERROR bad command line format\r\nCLIENT_ERROR bad command line format\r\nVALUE k 5 3\r\nabc\r\nVALUE j 6 0\r\n\r\nEND\r\n" },
{ "attr", "set k 5 0 3\r\nabc\r\ngetattr k flags expiretime type\r\ngetattr k count\r\nlop create l 1 0 8 tail_trim\r\ngetattr l\r\nsetattr l maxcount=9 overflowaction=error\r\ngetattr l maxcount overflowaction\r\nsetattr l maxcount=x\r\nsetattr l readable=off\r\nsetattr z expiretime=5\r\ngetattr z\r\ntouch k 0\r\ntouch z 0\r\ngetattr l foo\r\n",
  "STORED\r\nATTR flags=5\r\nATTR expiretime=0\r\nATTR type=kv\r\nEND\r\nATTR_ERROR not found\r\nCREATED\r\nATTR type=list\r\nATTR flags=1\r\nATTR expiretime=0\r\nATTR count=0\r\nATTR maxcount=8\r\nATTR overflowaction=tail_trim\r\nATTR readable=on\r\nEND\r\nOK\r\nATTR maxcount=9\r\nATTR overflowaction=error\r\nEND\r\nATTR_ERROR bad value\r\nATTR_ERROR bad value\r\nNOT_FOUND\r\nNOT_FOUND\r\nTOUCHED\r\nNOT_FOUND\r\nATTR_ERROR not found\r\n" },
{ "pipe", "lop insert l -1 1 create 0 0 0 pipe\r\na\r\nlop insert l -1 1 pipe\r\nb\r\nlop insert l -1 1\r\nc\r\nlop get l 0..-1\r\nlop insert z 0 1 pipe\r\na\r\nlop insert l 0 1 pipe\r\nz\r\nlop delete l 0\r\nlop get l 0..-1\r\n",
  "RESPONSE 3\r\nCREATED_STORED\r\nSTORED\r\nSTORED\r\nEND\r\nVALUE 0 3\r\n1 a\r\n1 b\r\n1 c\r\nEND\r\nRESPONSE 3\r\nNOT_FOUND\r\nSTORED\r\nDELETED\r\nEND\r\nVALUE 0 3\r\n1 a\r\n1 b\r\n1 c\r\nEND\r\n" },
{ "pipe2", "bop insert b 1 1 create 0 0 0 pipe\r\na\r\nsop insert s 1 create 0 0 0 pipe\r\nq\r\nmop insert m f 1 create 0 0 0 pipe\r\nz\r\nbop insert b 2 1 pipe\r\nb\r\nbop delete b 1 pipe\r\nsop exist s 1 pipe\r\nq\r\nsop delete s 1\r\nw\r\nbop get b 0..9\r\nset k 0 0 1\r\na\r\n",
  "RESPONSE 7\r\nCREATED_STORED\r\nCREATED_STORED\r\nCREATED_STORED\r\nSTORED\r\nDELETED\r\nEXIST\r\nNOT_FOUND_ELEMENT\r\nEND\r\nVALUE 0 1\r\n2 1 b\r\nEND\r\nSTORED\r\n" },
{ "pipebad", "lop insert l 0 1 create 0 0 0 pipe\r\na\r\nlop insert l 0 1 pipe\r\nbXXlop insert l 0 1 pipe\r\nc\r\nlop insert l 0 1\r\nd\r\nversion\r\nlop get l 0..-1\r\n",
  "RESPONSE 2\r\nCREATED_STORED\r\nCLIENT_ERROR bad data chunk\r\nPIPE_ERROR bad error\r\nVERSION " VERSION "\r\nVALUE 0 1\r\n1 a\r\nEND\r\n" },
{ "admin", "set a:k 0 0 1\r\na\r\nflush_prefix a\r\nflush_prefix b\r\nget a:k\r\nset k 0 0 1\r\na\r\nflush_all\r\nget k\r\nflush_all x\r\nconfig max_list_size\r\nconfig max_element_bytes 99\r\nconfig scrub_count 32\r\nconfig scrub_count\r\nconfig foo\r\nready\r\nstats foo\r\nstats prefix\r\n",
  "STORED\r\nOK\r\nNOT_FOUND\r\nEND\r\nSTORED\r\nOK\r\nEND\r\nCLIENT_ERROR bad command line format\r\nmax_list_size 50000\r\nEND\r\nCLIENT_ERROR bad value\r\nEND\r\nscrub_count 32\r\nEND\r\nCLIENT_ERROR bad command line format\r\nREADY\r\nERROR no matching stat\r\nERROR no matching stat\r\n" },
{ "scan", "set p:k1 0 0 1\r\na\r\nscan key x\r\nscan key 0 count 9999\r\nscan foo 0\r\nscan key 0 count 5 match\r\nscan key 0 type Q\r\nscan prefix\r\nversion\r\n",
  "STORED\r\nCLIENT_ERROR invalid cursor.\r\nCLIENT_ERROR bad count value\r\nCLIENT_ERROR bad command line format\r\nCLIENT_ERROR bad command line format\r\nCLIENT_ERROR bad item type\r\nERROR unknown command\r\nVERSION " VERSION "\r\n" },
{ "filters", "bop insert b 1 0x0F 1 create 0 0 0\r\na\r\nbop insert b 2 0x31 1\r\nb\r\nbop insert b 3 1\r\nc\r\nbop get b 0..9 0 & 0x03 EQ 0x03\r\nbop get b 0..9 0 EQ 0x0F,0x01,0x31 0 5\r\nbop count b 0..9 0 NE 0x0F,0x00\r\nbop update b 1 0 | 0xF0 1\r\nq\r\nbop update b 2 0 & 0x0F -1\r\nbop get b 9..0\r\nbop update b 3 0 | 0x01 -1\r\nbop get b 0..9 1 1\r\nbop get b 0..9 0 EQ\r\nbop get b 0..9 0 ^ 0x01 EQ 0xFE delete\r\nbop delete b 0..9 0 GT 0x0F\r\nbop get b 0..9\r\n",
  "CREATED_STORED\r\nSTORED\r\nSTORED\r\nVALUE 0 1\r\n1 0x0F 1 a\r\nEND\r\nVALUE 0 2\r\n1 0x0F 1 a\r\n2 0x31 1 b\r\nEND\r\nCOUNT=2\r\nUPDATED\r\nUPDATED\r\nVALUE 0 3\r\n3 1 c\r\n2 0x01 1 b\r\n1 0xFF 1 q\r\nEND\r\nEFLAG_MISMATCH\r\nVALUE 0 1\r\n2 0x01 1 b\r\nEND\r\nCLIENT_ERROR bad command line format\r\nVALUE 0 1\r\n1 0xFF 1 q\r\nDELETED\r\nNOT_FOUND_ELEMENT\r\nVALUE 0 2\r\n2 0x01 1 b\r\n3 1 c\r\nEND\r\n" },
{ "smget", "bop create t1 3 0 2 smallest_trim\r\nbop insert t1 1 1\r\na\r\nbop insert t1 5 1\r\nb\r\nbop insert t1 7 1\r\nc\r\nbop insert t2 6 1 create 4 0 0\r\nd\r\nbop insert t2 7 1\r\ne\r\nbop smget 8 3 9..0 10 duplicate\r\nt1 t2 t3\r\nbop smget 5 2 9..6 10 unique\r\nt1 t2\r\nbop smget 5 2 9..0 1 2 unique\r\nt1 t2\r\nbop smget 5 2 9..0 1 2\r\nt1 t2\r\nbop smget 5 2 9..0 0 0\r\nt1 t2\r\nbop mget 8 3 0..9 0 2\r\nt1 t2 t3\r\nbop mget 5 1 0..9 2\r\nt1 t2\r\nversion\r\n",
  "CREATED\r\nSTORED\r\nSTORED\r\nSTORED\r\nCREATED_STORED\r\nSTORED\r\nELEMENTS 4\r\nt2 4 7 1 e\r\nt1 3 7 1 c\r\nt2 4 6 1 d\r\nt1 3 5 1 b\r\nMISSED_KEYS 1\r\nt3 NOT_FOUND\r\nTRIMMED_KEYS 1\r\nt1 5\r\nDUPLICATED\r\nELEMENTS 2\r\nt2 4 7 1 e\r\nt2 4 6 1 d\r\nMISSED_KEYS 0\r\nTRIMMED_KEYS 0\r\nEND\r\nELEMENTS 2\r\nt2 4 6 1 d\r\nt1 3 5 1 b\r\nMISSED_KEYS 0\r\nTRIMMED_KEYS 0\r\nEND\r\nVALUE 2\r\nt1 3 7 1 c\r\nt2 4 6 1 d\r\nMISSED_KEYS 0\r\nEND\r\nCLIENT_ERROR bad value\r\nVALUE t1 TRIMMED 3 2\r\nELEMENT 5 1 b\r\nELEMENT 7 1 c\r\nVALUE t2 OK 4 2\r\nELEMENT 6 1 d\r\nELEMENT 7 1 e\r\nVALUE t3 NOT_FOUND\r\nEND\r\nCLIENT_ERROR bad data chunk\r\nVERSION " VERSION "\r\n" },
{ "gat", "set k 5 0 3\r\nabc\r\nlop create l 0 0 0\r\ngat 100 k j\r\ngetattr k expiretime\r\ngats 0 k\r\ngetattr k expiretime\r\ngat x k\r\ngat 5\r\ngat 0 l k\r\ntouch k 50\r\ngetattr k expiretime\r\ntouch k 0 noreply\r\ngetattr k expiretime\r\n",
  "STORED\r\nCREATED\r\nERROR unknown command\r\nATTR expiretime=0\r\nEND\r\nERROR unknown command\r\nATTR expiretime=0\r\nEND\r\nERROR unknown command\r\nERROR unknown command\r\nERROR unknown command\r\nTOUCHED\r\nATTR expiretime=50\r\nEND\r\nATTR expiretime=0\r\nEND\r\n" },
{ "quit", "set k 0 0 1\r\na\r\nget k\r\nquit\r\nversion\r\n",
  "STORED\r\nVALUE k 0 1\r\na\r\nEND\r\n" },
{ "pos", "bop insert b 0x0A 1 create 7 0 0\r\na\r\nbop insert b 0x0B01 0x01 1\r\nb\r\nbop position b 0x0B01 desc\r\nbop position b 0x0B asc\r\nbop position b 1 asc\r\nbop gbp b desc 0\r\nbop gbp b asc 5..9\r\nbop pwg b 0x0A asc 3\r\nbop gbp b foo 0\r\nbop get b 0x00..0xFFFF\r\nbop get b 0..5\r\nlop get b 0\r\n",
  "CREATED_STORED\r\nSTORED\r\nPOSITION=0\r\nNOT_FOUND_ELEMENT\r\nBKEY_MISMATCH\r\nVALUE 7 1\r\n0x0B01 0x01 1 b\r\nEND\r\nNOT_FOUND_ELEMENT\r\nVALUE 0 7 2 0\r\n0x0A 1 a\r\n0x0B01 0x01 1 b\r\nEND\r\nCLIENT_ERROR bad command line format\r\nVALUE 7 2\r\n0x0A 1 a\r\n0x0B01 0x01 1 b\r\nEND\r\nBKEY_MISMATCH\r\nTYPE_MISMATCH\r\n" },
{ "detail", "stats detail on\r\nset p:k 0 0 1\r\na\r\nget p:k\r\nget p:z\r\ndelete p:k\r\nstats detail dump\r\nstats detail off\r\nstats detail x\r\nstats detail\r\nstats reset\r\n",
  "OK\r\nSTORED\r\nVALUE p:k 0 1\r\na\r\nEND\r\nEND\r\nDELETED\r\nPREFIX p get 2 hit 1 set 1 del 1 inc 0 dec 0 lcs 0 lis 0 lih 0 lds 0 ldh 0 lgs 0 lgh 0 scs 0 sis 0 sih 0 sds 0 sdh 0 sgs 0 sgh 0 ses 0 seh 0 mcs 0 mis 0 mih 0 mus 0 muh 0 mds 0 mdh 0 mgs 0 mgh 0 bcs 0 bis 0 bih 0 bus 0 buh 0 bds 0 bdh 0 bps 0 bph 0 bms 0 bmh 0 bgs 0 bgh 0 bns 0 bnh 0 pfs 0 pfh 0 pgs 0 pgh 0 gps 0 gph 0 gas 0 sas 0\r\nEND\r\nOK\r\nCLIENT_ERROR usage: stats detail on|off|dump\r\nCLIENT_ERROR usage: stats detail on|off|dump\r\nRESET\r\n" },
{ "long", "set kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk 4294967295 0 10\r\n0123456789\r\nget kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk\r\nbop insert b 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF 0xEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEE 1 create 4294967295 0 0\r\na\r\nbop get b 0x00..0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF\r\nbop insert b 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF 1\r\na\r\nbop pwg b 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF asc\r\nbop insert n 18446744073709551615 0xEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEE 1 create 0 0 0\r\na\r\nbop gbp n asc 0\r\nbop smget 1 1 0..18446744073709551615 1 unique\r\nn\r\nbop mget 1 1 0..18446744073709551615 1\r\nn\r\nbop insert n 18446744073709551616 1\r\na\r\n",
  "STORED\r\nVALUE kkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkkk 4294967295 10\r\n0123456789\r\nEND\r\nCREATED_STORED\r\nVALUE 4294967295 1\r\n0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF 0xEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEE 1 a\r\nEND\r\nCLIENT_ERROR bad command line format\r\nERROR unknown command\r\nVALUE 0 4294967295 1 0\r\n0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF 0xEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEE 1 a\r\nEND\r\nCREATED_STORED\r\nVALUE 0 1\r\n18446744073709551615 0xEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEE 1 a\r\nEND\r\nELEMENTS 1\r\nn 0 18446744073709551615 0xEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEE 1 a\r\nMISSED_KEYS 0\r\nTRIMMED_KEYS 0\r\nEND\r\nVALUE n OK 0 1\r\nELEMENT 18446744073709551615 0xEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEEE 1 a\r\nEND\r\nCLIENT_ERROR bad command line format\r\nERROR unknown command\r\n" },
};
