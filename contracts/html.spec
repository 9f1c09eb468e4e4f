# C14: what reaches an HTML page.
unit html
package regexp
package cmd/csweb
partial
literals markup safe~<>&"'
use []byte [][]byte
seq [][]byte BB
capped Grep.buf regexp.(*Grep).Reader.buf
opaque Regexp int
prefix Grep g_
opaque io.Reader int
opaque io.Writer int
global EOF ro int
global ErrUnexpectedEOF ro int
havoc strings. bytes. path. filepath. path/filepath. time. os. io. unicode/utf8. errors. sort. strconv.
extern log.Printf skip
why
  (* s holds no byte that means something to HTML, but for the & of an entity *)
  predicate safe (s: seqB)
  (* s is made of string literals of the source and safe text *)
  predicate markup (s: seqB)
  axiom safe_empty: safe emptyB
  axiom safe_cat: forall a b [catB a b]. safe a -> safe b -> safe (catB a b)
  axiom markup_safe: forall a. safe a -> markup a
  axiom markup_cat: forall a b [catB a b]. markup a -> markup b -> markup (catB a b)
  function is_text (s: seqB) : bool  (* csweb's isText, a function of its argument *)
  function sniffed (s: seqB) : seqB  (* the content type net/http detects *)
  predicate text_type (t: seqB) = lenB t >= 5 /\ getB t 0 = 116 /\ getB t 1 = 101 /\ getB t 2 = 120 /\ getB t 3 = 116 /\ getB t 4 = 47
  predicate plain_type (t: seqB) = lenB t >= 10 /\ text_type t /\ getB t 5 = 112 /\ getB t 6 = 108 /\ getB t 7 = 97 /\ getB t 8 = 105 /\ getB t 9 = 110
  (* the browser is told not to guess, and the content type is text/plain or none of the text/ types *)
  predicate not_html (s: seqB) (nosniff: bool) (ctype: seqB) =
    nosniff /\ (if lenB ctype = 0 then not (text_type (sniffed s)) else plain_type ctype)
  val ref g_nosniff : bool  (* response header X-Content-Type-Options is nosniff *)
  val ref g_ctype : seqB  (* response header Content-Type, empty when not set *)
  val ref g_html : bool  (* the output is a page *)
  (* writing the pieces of a format: a literal of the source, a string, a number *)
  val x_out_lit (w: int) (s: seqB) : unit
  val x_out_int (w: int) (n: int) : unit
  val x_out_str (w: int) (s: seqB) : unit
    requires { [@expl:text is escaped before it is written to a page] g_html -> safe s }
endwhy
extern html.EscapeString
  val x_html_EscapeString (s: seqB) : seqB ensures { safe result }
extern fmt.Fprintf fmt=x_out
extern regexp.(*Regexp).Match args=
  val x_regexp_Regexp_Match () : int
extern regexp.(*Regexp).String args=
  val x_regexp_Regexp_String () : seqB

func regexp.(*Grep).esc
  ensures [escaped in HTML mode] g.g_HTML -> safe res0
  ensures g = old g

func regexp.lineContext trusted

func regexp.(*Grep).Reader
  requires g_html -> g.g_HTML
  ensures g.g_HTML = (old g).g_HTML

func regexp.(*Grep).File
  requires g_html -> g.g_HTML
  ensures g.g_HTML = (old g).g_HTML
extern (error).Error args=
  val x_error_Error () : seqB
extern io.ReadFull inout=1
  val x_io_ReadFull (r: int) (ref p: seqB) : (int, int) writes { p }
    ensures { let (n, err) = result in 0 <= n <= lenB p /\ lenB p = lenB (old p) }

# ---- the web server ----
opaque http.ResponseWriter int
havoc zip. fs. (error) http.Request index. flag. regexp.Compile regexp.Regexp). fmt.Sprintf
opaque Query int
opaque matcher int
opaque dstate int
opaque Path seqB
drop Index.data Index.pathIndex Index.nameIndex
global verboseFlag ro bool
global homePage lit
extern http.Error skip
extern (http.Header).Set args=1,2 mod=g_nosniff,g_ctype as=x_header
  val x_header (k v: seqB) : unit writes { g_nosniff, g_ctype }
    ensures { g_nosniff <-> if @eq(k, "X-Content-Type-Options") then @eq(v, "nosniff") else old g_nosniff }
    ensures { g_ctype = if @eq(k, "Content-Type") then v else old g_ctype }
extern http.DetectContentType
  val x_http_DetectContentType (s: seqB) : seqB ensures { result = sniffed s }
extern strings.HasPrefix
  val x_strings_HasPrefix (s p: seqB) : bool ensures { result <-> lenB p <= lenB s /\ forall i. 0 <= i < lenB p -> getB s i = getB p i }
extern (http.ResponseWriter).Write as=x_page args=1
  val x_page (s: seqB) : (int, int)
    requires { [@expl:page is made of literals and escaped text, or is not HTML] g_html -> markup s \/ not_html s g_nosniff g_ctype }
extern (*bytes.Buffer).WriteString as=x_buffer args=1
  val x_buffer (s: seqB) : (int, int) requires { [@expl:page is made of literals and escaped text] g_html -> markup s }
extern (*bytes.Buffer).Write as=x_buffer args=1
extern (*bytes.Buffer).Bytes as=x_buffer_Bytes args=
  val x_buffer_Bytes () : seqB ensures { g_html -> markup result }
extern strings.ReplaceAll
  val x_strings_ReplaceAll (s what put: seqB) : seqB
    ensures { markup s /\ markup put -> markup result }
func main.printHeader
  requires g_html
func main.serveDir
  requires g_html
  ensures markup res0
func main.isText trusted
  ensures res0 <-> is_text s
func main.serveFile
  requires g_html
  ensures [what is not text is served as it is, all else is markup] if is_text data then markup res0 else res0 = data
func main.home
  requires g_html
func main.show
  requires g_html /\ not g_nosniff /\ g_ctype = emptyB
