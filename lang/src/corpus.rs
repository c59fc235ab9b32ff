//! Documents that once failed, and other fixed ones; every run checks them first.
pub const DOCS: &[&str] = &[
    // two-letter compass points after a port
    "digraph { A:s0:ne -> B:f:sw; C:p:nw -> D:n:se }",
    "graph { a:ne -- b:n -- c:_ ; d:north:_ }",
    // numerals
    "graph { 007; 1.; 1.50; -.5; -0.; x = 00.0; 1 -- 2. }",
    "graph { a [len=1.,w=-007] }",
    // html strings
    "graph { a [label=<<b>x</b>>] b [label=<y>] }",
    "graph { a -- <b<i>c</i>> ; <<>> [x=<>] }",
    "graph { a [x=<a>, y=<b>] ; <c> -- <d> }",
    // keywords end at a token boundary
    "digraph digraphx { graphs; nodes [a=b]; edgex -> subgraphs; subgraph strictx { strictly } }",
    "digraphx { }",
    "strictgraph { }",
    "graph { subgraphx { a } }",
    "strict graph\"x\"{}",
    "graph{subgraph\"x\"{a}}",
    // edges that start with a subgraph
    "digraph { subgraph { a b } -> c }",
    "digraph { subgraph s { a b } -> c -> { d } [x=y] }",
    "digraph { {a} -> {b} }",
    "digraph { {a} -> b -> {c} [color=red][label=x] }",
    // unnamed subgraphs
    "graph { { a b } }",
    "graph { {} {} ; { { } } }",
    "graph { a -- { b c } }",
    // white space
    "graph\r{\ra\r--\rb\r}\r",
    "graph\t{\r\n}\r\n",
    // non-ascii ids
    "graph \u{e9}t\u{e9} { \u{65e5}\u{672c} -- a\u{300}b }",
    // keywords in any case
    "STRICT DiGraph G { NODE [a=b] Edge [c=d] gRAPH [e=f] SUBGRAPH s { x -> y } }",
    // empty lists
    "graph { node [] edge [] graph [] a [] a -- b [] }",
    "graph { node [][a=b][] a [x=y][] }",
    // comments
    "/* a */ graph { // b }\n # c {\n a /**/ -- /* \" */ b /***/ } // end",
    "graph { a [label=\"// no comment\"] b [label=\"/*\"] c [label=\"*/ #\"] d [label=</* */>] }",
    "graph{}//",
    "graph{}#",
    "# first\ngraph{}",
    // strings
    "graph { \"\" [\"a\\\"b\"=\"c\\\\\"] \"x\ny\" -- \"{\" ; \"\\\\\\\"\" }",
    "graph { \"a\"\"b\" <c>\"d\" e\"f\" }",
    // separators
    "graph { a; b, c }",
    "graph { a [x=y;z=w,u=v q=r;] }",
    "graph { a [x=y,;z=w] }",
    "graph { ; }",
    "graph { a;; b }",
    "graph { a [x] }",
    "graph { a [=x] }",
    "graph { a -- }",
    "graph { -- a }",
    "graph { a [x=y] [ }",
    "graph { a",
    "graph { a } }",
    "graph { a } graph { b }",
    "",
    "graph",
    "{}",
    "graph {} x",
    "strict {}",
    "graph a b {}",
    "graph { subgraph a b {} }",
    "graph { a:b:c:d }",
    "graph { a:b:x }",
    "graph { a: }",
    "graph { a::n }",
    "graph { subgraph s { a } [x=y] }",
    "graph { \"a }",
    "graph { <a }",
    "graph { /* }",
    "graph { a - b }",
    "graph { a -> }",
    "graph { a = b = c }",
    "graph { a:p = b }",
    "graph { node }",
    "graph { node [a=b] -- c }",
    "graph { {a} = b }",
    "graph { 1a }",
    "graph { 1.2.3 }",
    "graph { a--b--c--d [x=y] e }",
    "graph { a---5 }",
    "graph { a-5 }",
    "graph { .  }",
    "graph { - }",
    "graph { a [b=c }",
    "graph { a b=c] }",
    "graph { > }",
    "graph { a [x=<b>>] }",
    "graph { a { b } c }",
    "graph { a [x=y]b[z=w]{c}d--e }",
    "digraph A { subgraph b { graph [x=y] } c -> subgraph { } -> subgraph d { } }",
];
