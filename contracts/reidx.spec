# C15: what cindex does to the index file.
unit reidx
package cmd/cindex
partial
use []byte
opaque error int
heap IndexWriter
const Index

opaque fs.FileInfo int
opaque os.FileInfo int
global listFlag ro bool
global resetFlag var bool
global verboseFlag ro bool
global cpuProfile ro seqB
global checkFlag ro bool
global zipFlag ro bool
global statsFlag ro bool
global Usage skip
global SkipDir ro int
havoc flag. filepath. path/filepath. runtime/pprof. pprof. slices. fmt. index. iter. fs. io/fs.
extern log.Printf skip
extern log.SetPrefix skip
extern log.Fatal fatal
extern log.Fatalf fatal

why
  val constant g_master : seqB   (* the index file *)
  val constant g_existed : bool  (* it exists when cindex starts *)
  val constant g_reset : bool    (* the user asked for it to be discarded *)
  predicate updating = g_existed /\ not g_reset
  (* what a file holds: 1 a complete index written by this run, 2 a complete merge of the old index with one *)
  val ref g_state : map seqB int
  function target (ix: int) : seqB
endwhy
extern os.Stat mod=g_state
  val x_os_Stat (name: seqB) : (int, int)
    ensures { let (_, err) = result in name = g_master -> (err = 0 <-> g_existed) }
extern os.Remove mod=g_state
  val x_os_Remove (name: seqB) : int
    writes { g_state }
    requires { [@expl:the index is not removed] updating -> name <> g_master }
    ensures { g_state = set (old g_state) name 0 }
extern os.Create mod=g_state
  val x_os_Create (name: seqB) : (int, int)
    writes { g_state }
    requires { [@expl:the index is not truncated] updating -> name <> g_master }
    ensures { g_state = set (old g_state) name 0 }
extern os.Rename mod=g_state
  val x_os_Rename (a: seqB) (b: seqB) : int
    writes { g_state }
    requires { [@expl:only a complete merged index replaces the index] updating /\ b = g_master -> get g_state a = 2 }
    requires { [@expl:the index is not moved away] updating -> a <> g_master }
    ensures { g_state = set (set (old g_state) b (get (old g_state) a)) a 0 }
extern (*os.File).Close skip
extern index.File
  val x_index_File () : seqB ensures { result = g_master }
extern index.Create mod=g_state
  val x_index_Create (name: seqB) : int
    writes { g_state }
    requires { [@expl:the index is not overwritten] updating -> name <> g_master }
    ensures { g_state = set (old g_state) name 0 /\ target result = name }
extern index.(*IndexWriter).Flush mod=g_state
  val x_index_IndexWriter_Flush (ix: int) : unit
    writes { g_state }
    ensures { g_state = set (old g_state) (target ix) 1 }
extern index.Merge mod=g_state
  val x_index_Merge (dst: seqB) (src1: seqB) (src2: seqB) : unit
    writes { g_state }
    requires { [@expl:the index is not overwritten] updating -> dst <> g_master }
    requires { [@expl:the merge does not overwrite what it reads] dst <> src1 /\ dst <> src2 }
    requires { [@expl:the new index is complete before it is merged] get g_state src2 = 1 }
    ensures { g_state = set (old g_state) dst (if src1 = g_master then 2 else 0) }

func main.main
  requires g_resetFlag = g_reset /\ g_cpuProfile <> g_master
