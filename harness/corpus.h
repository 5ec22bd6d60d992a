// Programs (tokens separated by blanks) and token spellings for parser.cpp.
static std::vector<std::string> allSpellings() {
  return {"x", "M", "Real", "Integer", "String", "der", "1", "2.5", "\"s\"", "true", "false", "algorithm", "and", "annotation",
          "block", "break", "class", "connect", "connector", "constant", "constrainedby", "discrete", "each", "else", "elseif",
          "elsewhen", "encapsulated", "end", "enumeration", "equation", "expandable", "extends", "external", "final", "flow",
          "for", "function", "if", "import", "impure", "in", "initial", "inner", "input", "loop", "model", "not", "operator",
          "or", "outer", "output", "package", "parameter", "partial", "protected", "public", "pure", "record", "redeclare",
          "replaceable", "return", "stream", "then", "type", "when", "while", "within", "+", ".+", "-", ".-", "*", ".*", "/",
          "./", "^", ".^", ".", "==", "<>", "<", "<=", ">", ">=", ",", ";", ":", "(", ")", "[", "]", "{", "}", "=", ":=", "?",
          "99999999999999999999999"};
}

static std::vector<std::string> corpus() {
  return {
      "",
      "model M end M ;",
      "model M \"comment\" Real x ; end M ;",
      "model M Real x ( start = 1 , fixed = true ) = 3 \"c\" annotation ( a = 1 ) ; equation der ( x ) = - x ; end M ;",
      "model M parameter Integer n = 3 ; Real [ n , 2 , : ] x ( each start = 0 , final min := 1 ) ; final discrete Real y ; end M ;",
      "model M Real x ; protected Real y ; public input Real z ; . A . B w ; A . B . C v ; end M ;",
      "model M equation x = if a then b else c ; y [ 1 , : ] = x [ 1 : 2 : 3 ] . z [ n + 1 ] ; end M ;",
      "model M equation if a then x = 1 ; elseif b then y = 2 ; z = 3 ; else w = 4 ; end if ; end M ;",
      "model M equation when a then x = 1 ; elsewhen b then y = 2 ; else w = 4 ; end when ; end M ;",
      "model M initial equation for i in 1 : 3 , j loop x [ i , j ] = 0 ; for k loop y = k ; end for ; end for ; equation x = 1 ; end M ;",
      "model M algorithm x := 1 ; y [ 2 ] := f ( x ) ; initial algorithm z := 2 ; end M ;",
      "function F input Real x ; output Real y ; algorithm if x > 0 then y := 1 ; elseif x < 0 then y := 2 ; else y := 3 ; end if ; end F ;",
      "function F algorithm while not a and b or c loop x := x + 1 ; if d then break ; end if ; end while ; return ; end F ;",
      "function F algorithm for i in 1 : n loop x [ i ] := i ; end for ; when a then x := 1 ; end when ; ( a , , b ) := g ( x ) ; h ( ) ; end F ;",
      "function F external \"C\" y = f ( x , 2 ) annotation ( Library = \"l\" ) ; annotation ( Inline = true ) ; end F ;",
      "function F external f ( ) ; end F ;",
      "function F external ; end F ;",
      "package P function G = der ( F , x , y ) \"c\" ; record R Real a ; end R ; pure function H end H ; impure operator function K end K ; end P ;",
      "operator record R Real re ; Real im ; end R ;",
      "operator function F end F ; class C end C ;",
      "model M equation x = f ( a , b = c , d = e ) + g ( i for i in 1 : n , j ) + h ( ) ; ( a , b ) = k ( x ) ; end M ;",
      "model M equation x = { 1 , { 2 } , 3 } [ 2 ] + { i * j for i in 1 : 3 , j } ; y = ( a + b ) [ 1 ] ^ 2 ^ 3 ; z = ( ) ; end M ;",
      "model M equation x = a .+ b .- c .* d ./ e .^ f ; y = - 2 * 3 + 4 / 5 ; z = a <= b ; w = \"s\" \"comment\" ; v = . g . h ; end M ;",
      "model M Real x ( y ( z = 1 , each w ) = 2 , v ) ; annotation ( inverse ( a = f ( b , c ) ) , derivative ( order = 2 ) = d ) ; end M ;",
      "model A end A ; record B Integer i = 1 ; Boolean b ; String s ; end B ; package C end C ;",
      "model M Real [ 3 ] x = { 1 , 2 , 3 } ; Real [ n + 1 , 2 * m ] y ; equation x = y ; algorithm x := y ; public Real z ; model N end N ; equation y = z ; end M ;",
  };
}
