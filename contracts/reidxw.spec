# C15: which files the index package touches, and that an index is complete when it says so.
unit reidxw
package index
partial
use []byte index.Buffer
heap Buffer
const Index
heap PathWriter
heap IndexWriter
drop IndexWriter.trigram IndexWriter.roots IndexWriter.post IndexWriter.postEnds IndexWriter.inbuf
prefix Buffer bf_
prefix IndexWriter iw_
opaque os.File int
global writeVersion var int
havoc log. fmt. strings. bytes. path. iter. sort. slices. sparse. index.Path index.MakePath index.Index index.Open index.PathReader index.postMapReader. index.NewPathWriter
extern log.Fatal fatal
extern log.Fatalf fatal
extern log.Printf skip

why
  function fname (f: int) : seqB     (* the name of an open file *)
  function tempfile (n: seqB) : bool (* a new file that CreateTemp made *)
  val constant g_dst : seqB          (* the file the index is written to *)
  val ref g_out : int                (* the buffer that writes it *)
  val ref g_synced : bool            (* all that the buffer was given is in the file *)
  val ref g_ended : bool             (* the last thing it was given is the trailer *)
  predicate temps (h: map int buffer_t) (x: indexWriter_t) = tempfile (get h x.iw_nameData).bf_name /\ tempfile (get h x.iw_nameIndex).bf_name /\
    tempfile (get h x.iw_postFile).bf_name /\ tempfile (get h x.iw_postIndex).bf_name
  predicate trailer (s: seqB) = lenB s >= 14 /\ getB s 0 = 10 /\ getB s 9 = 116 /\ getB s 10 = 114
endwhy
extern os.OpenFile args=0 mod=g_synced
  val x_os_OpenFile (name: seqB) : (int, int)
    requires { [@expl:no file but the destination is opened for writing] name = g_dst }
    ensures { let (f, err) = result in err = 0 -> f <> 0 /\ fname f = name }
extern os.CreateTemp args=
  val x_os_CreateTemp () : (int, int)
    ensures { let (f, err) = result in err = 0 -> f <> 0 /\ tempfile (fname f) }
extern os.Remove
  val x_os_Remove (name: seqB) : int
    requires { [@expl:no file but a temporary one is removed] tempfile name }
extern (*os.File).Name
  val x_os_File_Name (f: int) : seqB ensures { result = fname f }

extern index.(*Buffer).Write mod=g_synced,g_ended
  val x_index_Buffer_Write (b: int) (x: seqB) : unit
    writes { g_synced, g_ended }
    ensures { g_out = b -> not g_synced /\ not g_ended } ensures { g_out <> b -> g_synced = old g_synced /\ g_ended = old g_ended }
extern index.(*Buffer).WriteTrigram mod=g_synced,g_ended
  val x_index_Buffer_WriteTrigram (b: int) (t: int) : unit
    writes { g_synced, g_ended }
    ensures { g_out = b -> not g_synced /\ not g_ended } ensures { g_out <> b -> g_synced = old g_synced /\ g_ended = old g_ended }
extern index.(*Buffer).WriteVarint mod=g_synced,g_ended
  val x_index_Buffer_WriteVarint (b: int) (x: int) : unit
    writes { g_synced, g_ended }
    ensures { g_out = b -> not g_synced /\ not g_ended } ensures { g_out <> b -> g_synced = old g_synced /\ g_ended = old g_ended }
extern index.(*Buffer).WriteUint mod=g_synced,g_ended
  val x_index_Buffer_WriteUint (b: int) (x: int) : unit
    writes { g_synced, g_ended }
    ensures { g_out = b -> not g_synced /\ not g_ended } ensures { g_out <> b -> g_synced = old g_synced /\ g_ended = old g_ended }
extern index.(*Buffer).Align mod=g_synced,g_ended
  val x_index_Buffer_Align (b: int) (n: int) : unit
    writes { g_synced, g_ended }
    ensures { g_out = b -> not g_synced /\ not g_ended } ensures { g_out <> b -> g_synced = old g_synced /\ g_ended = old g_ended }
extern index.(*Buffer).WriteByte mod=g_synced,g_ended
  val x_index_Buffer_WriteByte (b: int) (x: int) : int
    writes { g_synced, g_ended }
    ensures { g_out = b -> not g_synced /\ not g_ended } ensures { g_out <> b -> g_synced = old g_synced /\ g_ended = old g_ended }
extern index.(*Buffer).WriteString mod=g_synced,g_ended
  val x_index_Buffer_WriteString (b: int) (s: seqB) : unit
    writes { g_synced, g_ended }
    ensures { g_out = b -> not g_synced /\ (g_ended <-> trailer s) } ensures { g_out <> b -> g_synced = old g_synced /\ g_ended = old g_ended }
extern index.(*Buffer).Flush mod=g_synced,g_ended
  val x_index_Buffer_Flush (b: int) : unit
    writes { g_synced, g_ended }
    ensures { g_ended = old g_ended /\ (g_synced <-> old g_synced \/ b = g_out) }
extern index.copyFile mod=g_synced,g_ended
  val x_index_copyFile (dst: int) (src: int) : unit
    writes { g_synced, g_ended }
    ensures { g_out = dst -> not g_synced /\ not g_ended } ensures { g_out <> dst -> g_synced = old g_synced /\ g_ended = old g_ended }
extern index.(*Buffer).Offset args=
  val x_index_Buffer_Offset () : int
extern index.(*PathWriter).Write args= mod=g_synced,g_ended
  val x_index_PathWriter_Write () : unit
    writes { g_synced, g_ended }
extern index.(*PathWriter).Collect args= mod=g_synced,g_ended
  val x_index_PathWriter_Collect () : unit
    writes { g_synced, g_ended }
extern index.(*IndexWriter).addName args= mod=g_synced,g_ended
  val x_index_IndexWriter_addName () : unit
    writes { g_synced, g_ended }
extern index.(*IndexWriter).mergePost args= mod=g_synced,g_ended
  val x_index_IndexWriter_mergePost () : unit
    writes { g_synced, g_ended }
extern index.(*postDataWriter).trigram args=0 inout=0 mod=g_synced,g_ended
  val x_index_postDataWriter_trigram (ref w: postDataWriter_t) : unit
    writes { w, g_synced, g_ended }
    ensures { w.postDataWriter_postIndexFile = old w.postDataWriter_postIndexFile }
extern index.(*postDataWriter).fileid args=0 inout=0 mod=g_synced,g_ended
  val x_index_postDataWriter_fileid (ref w: postDataWriter_t) : unit
    writes { w, g_synced, g_ended }
    ensures { w.postDataWriter_postIndexFile = old w.postDataWriter_postIndexFile }
extern index.(*postDataWriter).endTrigram args=0 inout=0 mod=g_synced,g_ended
  val x_index_postDataWriter_endTrigram (ref w: postDataWriter_t) : unit
    writes { w, g_synced, g_ended }
    ensures { w.postDataWriter_postIndexFile = old w.postDataWriter_postIndexFile }
extern index.(*postDataWriter).flush args=0 inout=0 mod=g_synced,g_ended
  val x_index_postDataWriter_flush (ref w: postDataWriter_t) : unit
    writes { w, g_synced, g_ended }
    ensures { w.postDataWriter_postIndexFile = old w.postDataWriter_postIndexFile }
extern index.(*postDataWriter).init args=0,2 inout=0 mod=g_synced,g_ended
  val x_index_postDataWriter_init (ref w: postDataWriter_t) (pi: int) : unit
    writes { w, g_synced, g_ended }
    ensures { w.postDataWriter_postIndexFile = pi }

extern index.(*postMapReader).init args=0 inout=0
  val x_index_postMapReader_init (ref r: postMapReader_t) : unit
    writes { r }
    ensures { -1 <= r.postMapReader_fileid <= 0x7fffffffffffffff /\ 0 <= r.postMapReader_trigram <= 0xffffffff }
extern index.(*postMapReader).nextId args=0 inout=0
  val x_index_postMapReader_nextId (ref r: postMapReader_t) : bool
    writes { r }
    ensures { -1 <= r.postMapReader_fileid <= 0x7fffffffffffffff /\ 0 <= r.postMapReader_trigram <= 0xffffffff }
extern index.(*postMapReader).nextTrigram args=0 inout=0
  val x_index_postMapReader_nextTrigram (ref r: postMapReader_t) : unit
    writes { r }
    ensures { -1 <= r.postMapReader_fileid <= 0x7fffffffffffffff /\ 0 <= r.postMapReader_trigram <= 0xffffffff }

func index.bufCreate
  requires lenB name > 0 -> name = g_dst
  requires alloc_buffer_t >= 0
  at entry: assert { lenB name = 0 -> eqB name emptyB };
  ensures res0 = old alloc_buffer_t + 1 /\ alloc_buffer_t = res0 /\ forall p. p <> res0 -> get h_buffer_t p = get (old h_buffer_t) p
  ensures [a file is created only where asked] res0 <> 0 /\ (if lenB name > 0 then (get h_buffer_t res0).bf_name = name else tempfile (get h_buffer_t res0).bf_name)

func index.Create
  requires file = g_dst /\ lenB file > 0
  requires alloc_buffer_t >= 0
  ensures [one file is named, the others are temporary] let x = get h_indexWriter_t res0 in temps h_buffer_t x /\ (get h_buffer_t x.iw_main).bf_name = file

func index.(*IndexWriter).Flush
  requires g_out = (get h_indexWriter_t ix).iw_main /\ temps h_buffer_t (get h_indexWriter_t ix)
  ensures [the index is complete and in the file] g_synced /\ g_ended

func index.Merge ifsp
  requires dst = g_dst /\ lenB dst > 0
  requires alloc_buffer_t >= 0
  at call =ix#1 after: g_out <- ix
  ensures [the merged index is complete and in the file] g_synced /\ g_ended
  loop 7
    invariant w.postDataWriter_postIndexFile = postIndexFile
  loop 8
    invariant w.postDataWriter_postIndexFile = postIndexFile
  loop 9
    invariant w.postDataWriter_postIndexFile = postIndexFile
  loop 10
    invariant w.postDataWriter_postIndexFile = postIndexFile
