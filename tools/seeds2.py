from mkseed import seed
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
T="tiny/src/tiny.c"; L="tiny/src/lexer.c"; S="tiny/src/std.c"; D="tiny/src/dict.c"; A="tiny/src/array.c"; AR="tiny/src/arena.c"; U="tiny/src/util.c"
seed("varargs-last-fixed-unchecked","P05",[(T,"                    if (i < argc) {\n                        expectedArgTag","                    if (i + isVarargs < argc) {\n                        expectedArgTag")],
r'''int main(void) { prog("fwrite_like := 1 out(strcat(\"a\", \"b\"))", "ab\n"); prog("out(strcat(\"a\", 1))", "rejected"); prog("i := i64_add_many(1)", "rejected"); return bad; }''',
"a variadic host function whose last fixed argument has a wrong type","the argument is passed unchecked")
seed("designated-type-by-position","P05",[(T,"if (!IsTagAssignableTo(argNode->tag, expectedField->fieldTag)) {\n                            ReportErrorE(state, argNode,\n                                         \"Designated","if (!IsTagAssignableTo(\n                                argNode->tag,\n                                exp->constructor.structTag->sstruct.fields[i]->fieldTag)) {\n                            ReportErrorE(state, argNode,\n                                         \"Designated")],
r'''int main(void) { prog("struct S { a: int b: str } s := new S{.a = 1, .b = \"x\"} out(s.a, s.b)", "1 x\n"); prog("struct S { a: int b: str } s := new S{.b = \"x\", .a = 1} out(s.a, s.b)", "1 x\n"); prog("struct S { a: int b: str } s := new S{.b = 1, .a = \"x\"}", "rejected"); return bad; }''',
"a designated initializer whose names are not in the order of the fields, with fields of different types","the values are checked against the types of the wrong fields")
seed("ternary-arms-by-kind","P05",[(T,"            if (exp->ifx.body->tag != exp->ifx.alt->tag) {","            if (exp->ifx.body->tag->type != exp->ifx.alt->tag->type) {")],
r'''int main(void) { prog("struct A { x: int } struct B { y: str } a := if true new B{\"q\"} else new B{\"r\"} out(a.y)", "q\n"); prog("struct A { x: int } struct B { y: str } a := if false new A{1} else new B{\"q\"} out(1)", "rejected"); return bad; }''',
"a conditional expression with two different struct types","it is accepted with the type of the first")
seed("struct-types-by-prefix","P05",[(T,"        return strcmp(src->name, dest->name) == 0;","        return strncmp(src->name, dest->name, strlen(dest->name)) == 0;")],
r'''int main(void) { prog("struct P { x: int } struct PQ { y: str } p := new P{1} out(p.x)", "1\n"); prog("struct P { x: int } struct PQ { y: str } func f(p: P): int { return p.x } out(f(new PQ{\"a\"}))", "rejected"); return bad; }''',
"two types of which the name of one begins with the name of the other","a value of the longer name is accepted where the shorter one is required")
seed("field-by-prefix","P07",[(T,"        if (strcmp(f->name, name) == 0) {\n            if (index) *index = i;","        if (strncmp(f->name, name, strlen(f->name)) == 0) {\n            if (index) *index = i;")],
r'''int main(void) { prog("struct S { x: int xy: int } s := new S{1, 2} s.x = 5 out(s.x)", "5\n"); prog("struct S { x: int xy: int } s := new S{1, 2} s.xy = 7 out(s.x, s.xy)", "1 7\n"); return bad; }''',
"a field whose name begins with the name of an earlier one","the earlier field is accessed instead")
seed("index-name-cut","P06",[(T,"            char buf[256] = {0};\n            snprintf(buf, sizeof(buf), \"%s_get_index\", arrTypeName);","            char buf[32] = {0};\n            snprintf(buf, sizeof(buf), \"%s_get_index\", arrTypeName);")],
r'''int main(void) { prog("struct Vec { a: int } func Vec_get_index(v: Vec, i: int): int { return v.a + i } v := new Vec{3} out(v[2])", "5\n"); prog("struct ARatherLongNameOfAStruct { a: int } func ARatherLongNameOfAStruct_get_index(v: ARatherLongNameOfAStruct, i: int): int { return v.a + i } v := new ARatherLongNameOfAStruct{3} out(v[2])", "5\n"); return bad; }''',
"indexing a value of a type with a name of more than 21 characters","the name of the function is cut off, so it isn't found")
seed("constant-hides-global","P04",[(T,"    if (sym && (sym->type == TINY_SYM_CONST || sym->type == TINY_SYM_LOCAL ||\n                sym->type == TINY_SYM_GLOBAL)) {","    if (sym && (sym->type == TINY_SYM_CONST || sym->type == TINY_SYM_LOCAL)) {")],
r'''int main(void) { prog("X :: 5 x := 1 out(X, x)", "5 1\n"); prog("x := 1 x :: 5 out(x)", "rejected"); return bad; }''',
"a constant declared with the name of an existing global variable","it is accepted, and every use refers to the variable")
seed("no-root-on-top","P08",[(T,"    for (int i = 0; i < thread->sp; ++i) Tiny_ProtectFromGC(thread->stack[i]);","    for (int i = 0; i + 1 < thread->sp; ++i) Tiny_ProtectFromGC(thread->stack[i]);")],
r'''int main(void) { prog("func f(a: str, b: str): str { return strcat(a, b) } s := \"\" for i := 0; i < 300; i += 1 { s = f(strcat(\"a\", ntos(i)), strcat(\"b\", ntos(i))) if strlen(s) > 4 { s = substr(s, 0, 4) } } out(s)", "a299\n");
 prog("func id(s: str): str { for i := 0; i < 20; i += 1 { t := strcat(\"x\", \"y\") t = strcat(\"x\", t) } return s } r := \"\" for i := 0; i < 50; i += 1 { r = strcat(id(strcat(\"k\", ntos(i))), id(strcat(\"l\", ntos(i)))) } out(r)", "k49l49\n"); 
 Tiny_State *s = newState(); Tiny_CompileString(s, "m", "g := \"\" g = strcat(\"one\", \"two\") out(g)"); Tiny_StateThread t; Tiny_InitThread(&t, s); Tiny_StartThread(&t); used = 0; OUT[0] = 0; do t.maxNumObjects = 0; while (Tiny_ExecuteCycle(&t)); is("every step", OUT, "onetwo\n"); Tiny_DestroyThread(&t); Tiny_DeleteState(s);
 s = newState(); Tiny_CompileString(s, "m", "func f(): str { strcat(\"a\", \"b\") s := strcat(\"one\", \"two\") strcat(\"3\", \"4\") return s } x := f() out(x)"); Tiny_InitThread(&t, s); Tiny_StartThread(&t); used = 0; OUT[0] = 0; do t.maxNumObjects = 0; while (Tiny_ExecuteCycle(&t)); is("every step 2", OUT, "onetwo\n"); return bad; }''',
"a collection while the only reference to an object is the topmost value of the stack, not yet stored anywhere","the object is freed")
seed("string-objects-uncounted","P09",[(T,"    obj->string.ptr[obj->string.len] = '\\0';\n\n    thread->numObjects++;","    obj->string.ptr[obj->string.len] = '\\0';\n\n    if (len > 0) thread->numObjects++;")],
r'''static size_t live, peak; static void *cnt(void *p, size_t n, void *u) { size_t *q = p ? (size_t *)p - 2 : 0; if (q) live -= q[0]; if (!n) { free(q); return 0; } q = realloc(q, n + 16); q[0] = n; live += n; if (live > peak) peak = live; return q + 2; }
static Tiny_Value empty(Tiny_StateThread *t, const Tiny_Value *a, int c) { return Tiny_NewStringCopy(t, "", 0); }
static Tiny_Value full(Tiny_StateThread *t, const Tiny_Value *a, int c) { return Tiny_NewStringCopy(t, "x", 1); }
static size_t go(const char *src) { Tiny_State *s = newState(); Tiny_BindFunction(s, "empty(): str", empty); Tiny_BindFunction(s, "full(): str", full); if (Tiny_CompileString(s, "m", src).type != TINY_COMPILE_SUCCESS) return 1 << 30; Tiny_StateThread t; live = peak = 0; Tiny_InitThreadWithContext(&t, s, (Tiny_Context){cnt, 0}); Tiny_StartThread(&t); Tiny_Run(&t); Tiny_DestroyThread(&t); if (live) bad = 1; Tiny_DeleteState(s); return peak; }
int main(void) { if (go("for i := 0; i < 2000; i += 1 { full() }") > 20000) bad = 1; if (go("for i := 0; i < 2000; i += 1 { empty() }") > 20000) { printf("unbounded memory\n"); bad = 1; } return bad; }''',
"a program which creates empty strings only","they aren't counted, so garbage is never collected")
seed("failed-code-remains","P11",[(T,"            stb__sbn(state->program) = startCodeLen;\n","            if (state->compileErrorResult.type != TINY_COMPILE_ERROR) stb__sbn(state->program) = startCodeLen;\n")],
r'''int main(void) { Tiny_State *s = newState(); Tiny_StateThread t; 
 if (Tiny_CompileString(s, "a", "out(1)").type != TINY_COMPILE_SUCCESS) bad = 1; if (Tiny_CompileString(s, "b", "out(x)").type == TINY_COMPILE_SUCCESS) bad = 1;
 if (Tiny_CompileString(s, "c", "out(2) break").type == TINY_COMPILE_SUCCESS) bad = 1; if (Tiny_CompileString(s, "d", "out(3)").type != TINY_COMPILE_SUCCESS) bad = 1;
 Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); is("after a failure", OUT, "1\n3\n"); return bad; }''',
"a compilation which fails after code has been generated, such as a break outside of a loop, followed by another one","the code of the failed source is executed")
seed("parenthesised-target","P12",[(T,"                        exp->binary.lhs->type != TINY_EXP_DOT &&\n                        exp->binary.lhs->type != TINY_EXP_INDEX) {","                        exp->binary.lhs->type != TINY_EXP_DOT &&\n                        exp->binary.lhs->type != TINY_EXP_INDEX &&\n                        exp->binary.lhs->type != TINY_EXP_PAREN) {")],
r'''int main(void) { prog("a := 1 a = 2 out(a)", "2\n"); prog("1 = 2", "rejected"); prog("a := 1 (a) = 2", "rejected"); return bad; }''',
"an assignment to a variable in parentheses","the compiler stops the process")
seed("empty-compile-keeps-halt","P13",[(T,"    if (sb_count(state->program) > 0) {\n        if (state->program[sb_count(state->program) - 1] == TINY_OP_HALT) {","    if (sb_count(state->program) > 0) {\n        if (progHead && state->program[sb_count(state->program) - 1] == TINY_OP_HALT) {")],
r'''static const char *pieces(const char *a, const char *b, const char *c) { Tiny_State *s = newState(); Tiny_StateThread t; used = 0; OUT[0] = 0; const char *p[] = {a, b, c}; for (int i = 0; i < 3; ++i) if (Tiny_CompileString(s, "m", p[i]).type != TINY_COMPILE_SUCCESS) return "rejected"; Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); Tiny_DestroyThread(&t); Tiny_DeleteState(s); return OUT; }
int main(void) { is("three pieces", pieces("out(1)", "out(2)", "out(3)"), "1\n2\n3\n"); is("a struct between", pieces("out(1)", "struct S { a: int }", "out(new S{3}.a)"), "1\n3\n"); return bad; }''',
"a piece without statements (empty, or only struct definitions) between others with statements","the program stops there")
seed("shared-number-buffer","P14",[(S,"    char buf[32] = {0};\n\n    int len = snprintf(buf, sizeof(buf), \"%lld\", (int64_t)i);","    static char buf[32];\n\n    int len = snprintf(buf, sizeof(buf), \"%lld\", (int64_t)i);")],
r'''#include <pthread.h>
static int wrong; static Tiny_Value check(Tiny_StateThread *t, const Tiny_Value *a, int c) { if (strtoll(Tiny_ToString(a[0]), 0, 10) != Tiny_ToInt(a[1])) wrong = 1; return Tiny_Null; }
static Tiny_State *S; static void *go(void *p) { Tiny_StateThread *t = malloc(sizeof *t); Tiny_InitThread(t, S); Tiny_StartThread(t); Tiny_SetGlobal(t, Tiny_GetGlobalIndex(S, "base"), Tiny_NewInt((long)p)); Tiny_CallFunction(t, Tiny_GetFunctionIndex(S, "go"), 0, 0); Tiny_DestroyThread(t); free(t); return 0; }
int main(void) { prog("out(int_to_str(12))", "12\n"); S = newState(); Tiny_BindFunction(S, "check(str, int): void", check); if (Tiny_CompileString(S, "m", "base := 0 func go() { for i := 0; i < 300000; i += 1 { check(int_to_str(base + i), base + i) } }").type != TINY_COMPILE_SUCCESS) return 2;
 long b[] = {1, 10000000, 5000000000000, 90000000000000}; for (int r = 0; r < 10 && !wrong; ++r) { pthread_t p[4]; for (int i = 0; i < 4; ++i) pthread_create(&p[i], 0, go, (void *)b[i]); for (int i = 0; i < 4; ++i) pthread_join(p[i], 0); } if (wrong) { printf("a thread got the number of another\n"); bad = 1; } return bad; }''',
"two threads converting ints to strings at the same time on different operating-system threads","they write to the same buffer")
seed("finished-thread-restarts","P15",[(T,"    thread->pc = pc;\n    thread->fp = fp;\n    thread->sp = sp;","    if (pc >= 0 || !thread->numObjects) thread->pc = pc;\n    thread->fp = fp;\n    thread->sp = sp;")],
r'''int main(void) { for (int k = 0; k < 2; ++k) { Tiny_State *s = newState(); Tiny_StateThread t; used = 0; OUT[0] = 0; Tiny_CompileString(s, "m", k ? "g := strcat(\"a\", \"b\") func f(): int { out(7) return 5 } out(1)" : "func f(): int { out(7) return 5 } out(1)"); Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); if (Tiny_ToInt(Tiny_CallFunction(&t, Tiny_GetFunctionIndex(s, "f"), 0, 0)) != 5) bad = 1; if (t.pc >= 0) { printf("the thread is running again\n"); return 1; } is("calls", OUT, "1\n7\n"); } return bad; }''',
"a host call on a finished thread which has objects","the thread is left running at the start of the function")
seed("substr-to-end","P18",[(S,"    if (end == -1) {\n        end = sLen;\n    }","    if (end == -1) {\n        end = (int)strlen(s);\n    }")],
r'''static Tiny_Value bin(Tiny_StateThread *t, const Tiny_Value *a, int c) { return Tiny_NewStringCopy(t, "ab\0cd", 5); }
int main(void) { prog("out(strlen(substr(\"hello\", 2, -1)))", "3\n"); Tiny_State *s = newState(); Tiny_BindFunction(s, "bin(): str", bin); used = 0; OUT[0] = 0; Tiny_CompileString(s, "m", "b := bin() out(strlen(substr(b, 0, 5)), strlen(substr(b, 1, -1)))"); Tiny_StateThread t; Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); is("binary", OUT, "5 4\n"); return bad; }''',
"the rest of a string which contains a zero byte","the rest ends at the zero byte")
seed("native-equality-by-object","P19",[(T,"        return a.obj->nat.addr == b.obj->nat.addr;","        return a.obj == b.obj;")],
r'''static int x; static Tiny_Value nat(Tiny_StateThread *t, const Tiny_Value *a, int c) { return Tiny_NewNative(t, &x, 0); }
int main(void) { Tiny_State *s = newState(); Tiny_BindFunction(s, "nat(): any", nat); used = 0; OUT[0] = 0; Tiny_CompileString(s, "m", "a := nat() b := a out(a == b) c := nat() out(a == c)"); Tiny_StateThread t; Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); is("natives", OUT, "true\ntrue\n"); return bad; }''',
"two native objects made for the same address","they aren't equal")
seed("dot-after-hex","P20",[(L,"        while (isalnum(l->last) || l->last == '_') {","        while (isalnum(l->last) || (l->last == '_' && Peek(l) != '_')) {")],
r'''int main(void) { prog("a_b := 1 out(a_b)", "1\n"); prog("a__b := 1 a_ := 2 out(a__b, a_)", "1 2\n"); return bad; }''',
"an identifier with two underscores in a row","it ends at the first one")
seed("first-column-is-previous-line","P21",[(U,"    while (curPos < pos) {","    while (curPos + 1 < pos) {")],
r"""static const char *err(const char *src) { run(src); return ERR; }
int main(void) { if (!strstr(err("out(1)\n\nout( y)"), "main(3)")) bad = 1; if (!strstr(err("out(1,\n2,\n yy)"), "main(3)")) bad = 1; if (!strstr(err("out(1,\n2,\nyy)"), "main(3)")) { printf("%s\n", ERR); bad = 1; } return bad; }""",
"an offending construct at the start of a line","the previous line is reported")
seed("line-search-off-by-one","P22",[(T,"        if (curPC > pc) {\n            hi = curIndex;","        if (curPC > pc) {\n            hi = curIndex - (hi - lo > 8);")],
r'''static int lines[200], nl; static Tiny_Value at(Tiny_StateThread *t, const Tiny_Value *a, int c) { int l; Tiny_GetExecutingFileLine(t, 0, &l); if (l != Tiny_ToInt(a[0])) { printf("line %d instead of %d\n", l, (int)Tiny_ToInt(a[0])); bad = 1; } return Tiny_Null; }
static void go(int n) { static char src[20000]; int u = 0; for (int i = 1; i <= n; ++i) u += sprintf(src + u, "at(%d)\n", i); Tiny_State *s = newState(); Tiny_BindFunction(s, "at(int): void", at); Tiny_CompileString(s, "m", src); Tiny_StateThread t; Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); Tiny_DestroyThread(&t); Tiny_DeleteState(s); }
int main(void) { go(3); for (int n = 4; n < 60; ++n) go(n); return bad; }''',
"a program with more than 8 statements and a suitable position","the line of the previous statement is reported")
seed("file-of-empty-statement","P22",[(T,"            last->line = record.line;\n            last->fileStrIndex = record.fileStrIndex;","            last->line = record.line;")],
r'''static Tiny_Value at(Tiny_StateThread *t, const Tiny_Value *a, int c) { const char *f; int l; Tiny_GetExecutingFileLine(t, &f, &l); if (strcmp(f, Tiny_ToString(a[0]))) { printf("file %s instead of %s\n", f, Tiny_ToString(a[0])); bad = 1; } return Tiny_Null; }
int main(void) { for (int k = 0; k < 2; ++k) { Tiny_State *s = newState(); Tiny_BindFunction(s, "at(str): void", at); Tiny_CompileString(s, "one", k ? "at(\"one\") X :: 5" : "at(\"one\")"); Tiny_CompileString(s, "two", "at(\"two\")"); Tiny_StateThread t; Tiny_InitThread(&t, s); Tiny_StartThread(&t); Tiny_Run(&t); } return bad; }''',
"a source which ends with a statement without code (a constant), followed by another source","the first statement of the second source is reported in the file of the first")
seed("insert-shifts-one-less","P16",[(A,"    memmove(&array->data[index + 1], &array->data[index], sizeof(Tiny_Value) * (len - index));","    memmove(&array->data[index + 1], &array->data[index],\n            sizeof(Tiny_Value) * (len - index > 16 ? 16 : len - index));")],
r"""int main(void) { for (int n = 2; n < 40; ++n) { char src[500], want[10]; snprintf(src, sizeof src, "use array(\"int\") as ai a := ai() for i := 0; i < %d; i += 1 { a->ai_push(i) } a->ai_insert(1, 100) ok := a[1] == 100 && a[0] == 0 for j := 1; j < %d; j += 1 { ok = ok && a[j + 1] == j } out(ok)", n, n); prog(src, "true\n"); } return bad; }""",
"inserting into an array before more than 16 elements","only 16 of them are moved")
seed("remove-wraps-late","P17",[(D,"        } else if ((HashValue(keyHere) % dict->bucketCount) != index) {","        } else if ((HashValue(keyHere) % dict->bucketCount) < index) {")],
r"""int main(void) { prog("d := dict() dict_put(d, 1, 10) dict_put(d, 33, 330) dict_remove(d, 1) out(dict_get(d, 33))", "330\n"); prog("d := dict() dict_put(d, 31, 10) dict_put(d, 63, 330) dict_put(d, 95, 7) dict_remove(d, 31) out(dict_get(d, 63), dict_get(d, 95))", "330 7\n"); return bad; }""",
"removing a key from a chain of colliding keys which wraps around the end of the table","keys behind the end are no longer found")
seed("dict-keys-of-false","P17",[(D,"            return (int)value.boolean + 1;","            return (int)value.boolean;"),(D,"    while (!Tiny_IsNull(prevKey) && !Tiny_AreValuesEqual(prevKey, key)) {","    while (!Tiny_IsNull(prevKey) &&\n           !(prevKey.type == key.type && Tiny_AreValuesEqual(prevKey, key))) {")],
r"""int main(void) { prog("d := dict() dict_put(d, \"a\", 1) dict_put(d, \"a\", 2) out(dict_get(d, \"a\"))", "2\n"); prog("use array(\"any\") as array_any d := dict() dict_put(d, \"ab\", 1) dict_put(d, strcat(\"a\", \"b\"), 2) out(dict_get(d, \"ab\"), array_any_len(dict_keys(d)))", "2 1\n"); return bad; }""",
"a constant and a computed string with the same content as keys","they are two entries")
seed("array-any-is-primitive","P08",[(S,"    return Tiny_NewNative(thread, array, primitive ? &PrimitiveArrayProp : &ArrayProp);","    return Tiny_NewNative(thread, array,\n                          primitive || (count > 0 && values[0].type == TINY_VAL_INT)\n                              ? &PrimitiveArrayProp\n                              : &ArrayProp);")],
r"""int main(void) { const char *g = "for i := 0; i < 200; i += 1 { strcat(\"x\", \"y\") } "; char src[500]; snprintf(src, sizeof src, "use array(\"any\") as aa a := aa(strcat(\"p\", \"q\")) %s out(a[0])", g); prog(src, "pq\n"); snprintf(src, sizeof src, "use array(\"any\") as aa a := aa(1, strcat(\"p\", \"q\")) %s s := strcat(\"z\", \"w\") out(a[1])", g); prog(src, "pq\n"); return bad; }""",
"an array of any which begins with an int and contains objects","the objects in it aren't kept alive")
seed("array-set-type-from-get","P24",[(S,"    snprintf(sigbuf, sizeof(sigbuf), \"%s_insert(%s, int, %s): void\", asName, asName, args[0]);","    snprintf(sigbuf, sizeof(sigbuf), \"%s_insert(%s, int, any): void\", asName, asName);")],
r"""int main(void) { prog("use array(\"int\") as ai a := ai(1) a->ai_insert(0, 5) out(a[0])", "5\n"); prog("use array(\"int\") as ai a := ai(1) a->ai_insert(0, \"x\")", "rejected"); return bad; }""",
"inserting a value of another type into a typed array","it is accepted")
seed("json-bool-by-content","P25",[(S,"            return Tiny_NewConstString(args[0].boolean ? \"true\" : \"false\");","            return Tiny_NewConstString(args[0].i == 1 ? \"true\" : \"false\");")],
r"""int main(void) { prog("struct S { a: bool } use json(\"S\") out(S_to_json(new S{true}))", "{\"a\":true}\n"); prog("struct S { a: bool } use json(\"S\") n := 300 out(S_to_json(new S{n > 5}))", "{\"a\":true}\n"); prog("struct S { a: bool } use json(\"S\") func f(n: int): bool { return 5000000000 + n > 7 } out(S_to_json(new S{f(4)}))", "{\"a\":true}\n"); return bad; }""",
"a boolean which is the result of a comparison of ints above 255, whose upper bits remain in the value","true is written as false")
seed("delegate-name-forgets-return","P26",[(S,"    typeUsed += snprintf(typeBuf + typeUsed, sizeof(typeBuf) - typeUsed, \"_%s\", returnTagName);","    typeUsed += snprintf(typeBuf + typeUsed, sizeof(typeBuf) - typeUsed, \"_%.3s\", returnTagName);")],
r"""int main(void) { prog("func f(a: int): int { return a + 1 } use delegate(\"f\") as df func g(a: int): str { return \"x\" } use delegate(\"g\") as dg out(delegate_int_int_call(df(), 1), delegate_int_str_call(dg(), 1))", "2 x\n"); prog("struct Shape { a: int } func f(a: int): Shape { return new Shape{a} } use delegate(\"f\") as df out(delegate_int_Shape_call(df(), 4).a)", "4\n"); return bad; }""",
"a delegate of a function whose return type has a name of more than three characters","the delegate type has another name, shared by different return types")
seed("call-function-drops-args","P26",[(S,"    return Tiny_CallFunction(thread, i, args + 1, count - 1);","    return Tiny_CallFunction(thread, i, args + 1, count > 9 ? 8 : count - 1);")],
r"""int main(void) { prog("func f(a: int, b: int): int { return a * 10 + b } out(call_function(get_function_index(\"f\"), 1, 2))", "12\n"); prog("x := 3 func f(a: int, b: int, c: int, d: int, e: int, g: int, h: int, i: int, j: int): int { return a * 10 + j } use delegate(\"f\") as df out(delegate_int_int_int_int_int_int_int_int_int_int_call(df(), 1, 2, 3, 4, 5, 6, 7, 8, 9))", "19\n"); return bad; }""",
"a delegate of a function with more than 8 parameters","the last ones aren't passed")
seed("arena-large-first","P27",[(AR,"            page->next = a->head->next;\n            a->head->next = page;","            page->next = NULL;\n            a->head->next = page;")],
r"""static long n; static void *cnt(void *p, size_t k, void *u) { if (p) n--; if (!k) { free(p); return 0; } n++; return realloc(p, k); }
int main(void) { for (int k = 0; k < 3; ++k) { Tiny_Arena a; Tiny_InitArena(&a, (Tiny_Context){cnt, 0}); Tiny_ArenaAlloc(&a, 10, 8); for (int i = 0; i < k; ++i) Tiny_ArenaAlloc(&a, 100000, 8); Tiny_DestroyArena(&a); if (n) { printf("%ld pages left after %d large ones\n", n, k); bad = 1; } } return bad; }""",
"more than one allocation larger than a page, or one after a page has been filled","a page is never returned")
seed("global-index-of-constant","P28",[(T,"        if (sym->type == TINY_SYM_GLOBAL && strcmp(sym->name, name) == 0) {\n            return sym->var.index;","        if (sym->type == TINY_SYM_GLOBAL && strncmp(sym->name, name, strlen(sym->name)) == 0) {\n            return sym->var.index;")],
r"""int main(void) { Tiny_State *s = newState(); Tiny_CompileString(s, "m", "b := 2 ab := 1 a := 3 aba := 4"); if (Tiny_GetGlobalIndex(s, "b") != 0 || Tiny_GetGlobalIndex(s, "a") != 2 || Tiny_GetGlobalIndex(s, "ab") != 1 || Tiny_GetGlobalIndex(s, "aba") != 3) { printf("%d\n", Tiny_GetGlobalIndex(s, "aba")); bad = 1; } return bad; }""",
"a global whose name begins with the name of an earlier one, or a name which doesn't exist but begins with one","the index of the earlier one is returned")
seed("undefined-struct-found","P28",[(T,"    if (sym && sym->type == TINY_SYM_TAG_STRUCT && !sym->sstruct.defined) {\n        return NULL;\n    }\n\n    return sym;","    if (sym && sym->type == TINY_SYM_TAG_STRUCT && !sym->sstruct.defined && !sym->sstruct.fields) {\n        return sym->pos ? NULL : sym;\n    }\n\n    return sym;")],
r"""int main(void) { Tiny_State *s = newState(); Tiny_CompileString(s, "m", "struct S { a: int }"); if (!Tiny_FindTypeSymbol(s, "S") || Tiny_FindTypeSymbol(s, "Q")) bad = 1; Tiny_BindFunction(s, "f(Later): void", demoOut); if (Tiny_FindTypeSymbol(s, "Later")) { printf("found a type which nothing declares\n"); bad = 1; } return bad; }""",
"a bound function which mentions a struct that isn't defined yet","the struct is found")
seed("string-256","P29",[(T,"    if (sIndex <= 0xff) {","    if (sIndex <= 0x100) {")],
r"""int main(void) { static char src[200000], want[10]; int n = 0; for (int i = 0; i < 300; ++i) n += sprintf(src + n, "s%d := \"t%d\" if !(s%d == strcat(\"t\", int_to_str(%d))) { out(%d) }\n", i, i, i, i, i); prog(src, ""); return bad; }""",
"a program with more than 256 different strings","the 257th is the first one")
seed("i64-stops-at-zero","P30",[(S,"        product *= (int64_t)(intptr_t)Tiny_ToAddr(args[i]);","        int64_t factor = (int64_t)(intptr_t)Tiny_ToAddr(args[i]);\n        if (factor) product *= factor;")],
r"""int main(void) { prog("a := int_to_i64(5) out(i64_to_string(i64_mul_many(a, a, a)))", "125\n"); prog("a := int_to_i64(5) z := int_to_i64(0) out(i64_to_string(i64_mul_many(a, z, a)))", "0\n"); return bad; }""",
"multiplying by zero in a position other than the first","the zero is ignored")
seed("i64-text-from-double","P30",[(S,"    int len = snprintf(buf, sizeof(buf), \"%lld\", (int64_t)(intptr_t)Tiny_ToAddr(args[0]));","    int len = snprintf(buf, sizeof(buf), \"%.0f\", (double)(intptr_t)Tiny_ToAddr(args[0]));")],
r"""int main(void) { prog("out(i64_to_string(int_to_i64(-12345678901)))", "-12345678901\n"); prog("out(i64_to_string(int_to_i64(9007199254740993)))", "9007199254740993\n"); return bad; }""",
"a value which is no double","the text is rounded")
seed("input-grows-once","P31",[(S,"        if (bufferLength + 1 >= bufferCapacity) {\n            bufferCapacity *= 2;\n            buffer","        if (bufferLength + 1 >= bufferCapacity) {\n            bufferCapacity = bufferLength < 64 ? bufferCapacity * 2 : bufferCapacity + 1;\n            if (bufferCapacity == 130) bufferLength -= 1;\n            buffer")],
r"""int main(void) { char p[300]; snprintf(p, sizeof p, "%s/in", getenv("SCRATCH")); for (int n = 0; n < 300; n += 7) { FILE *f = fopen(p, "w"); for (int i = 0; i < n; ++i) putc('a' + i % 26, f); putc('\n', f); fclose(f); freopen(p, "r", stdin); char want[10]; snprintf(want, sizeof want, "%d\n", n); prog("out(strlen(input()))", want); } return bad; }""",
"a line of more than 128 characters","a character is lost")
seed("printf-char-stops","P31",[(S,"                    printf(\"%c\", (char)args[arg].i);","                    printf(\"%s\", (char[]){(char)args[arg].i, 0});")],
r"""int main(void) { char p[300]; snprintf(p, sizeof p, "%s/o", getenv("SCRATCH")); fflush(stdout); FILE *keep = stderr; freopen(p, "w", stdout); run("printf(\"%c|\", 65) printf(\"%c|\", 0)"); fflush(stdout); freopen("/dev/null", "w", stdout); FILE *f = fopen(p, "r"); char b[20]; size_t n = fread(b, 1, 20, f); return !(n == 4 && !memcmp(b, "A|\0|", 4)); }""",
"printing the character with the code 0","nothing is written")
seed("file-left-open","P34",[(T,"    s[len] = 0;\n\n    bool failed = ferror(file);\n\n    fclose(file);","    s[len] = 0;\n\n    bool failed = ferror(file);\n\n    if (len > 0 && s[len - 1] == '\\n') fclose(file);")],
r"""#include <unistd.h>
static int count(void) { int n = 0; for (int i = 0; i < 200; ++i) if (dup2(i, i) == i) ++n; return n; }
int main(void) { char p[300]; snprintf(p, sizeof p, "%s/a.tiny", getenv("SCRATCH")); for (int k = 0; k < 2; ++k) { FILE *f = fopen(p, "w"); fputs(k ? "out(1)" : "out(1)\n", f); fclose(f); int n = count(); Tiny_State *s = newState(); if (Tiny_CompileFile(s, p).type != TINY_COMPILE_SUCCESS) bad = 1; Tiny_DeleteState(s); if (count() != n) { printf("left open\n"); bad = 1; } } return bad; }""",
"compiling a file which doesn't end with a line break","the file is never closed")
seed("file-text-leak","P34",[(T,"    Tiny_CompileResult result = Tiny_CompileString(state, filename, s);\n\n    TFree(&state->ctx, s);","    Tiny_CompileResult result = Tiny_CompileString(state, filename, s);\n\n    if (result.type == TINY_COMPILE_SUCCESS) TFree(&state->ctx, s);")],
r"""static long n; static void *cnt(void *p, size_t k, void *u) { if (p) n--; if (!k) { free(p); return 0; } n++; return realloc(p, k); }
int main(void) { char p[300]; snprintf(p, sizeof p, "%s/a.tiny", getenv("SCRATCH")); for (int k = 0; k < 2; ++k) { FILE *f = fopen(p, "w"); fputs(k ? "x := y" : "x := 1", f); fclose(f); Tiny_State *s = Tiny_CreateStateWithContext((Tiny_Context){cnt, 0}); Tiny_CompileFile(s, p); Tiny_DeleteState(s); if (n) { printf("%ld blocks left\n", n); bad = 1; } } return bad; }""",
"compiling a file with an error in it","its text is never freed")
seed("unknown-after-known","P35",[(T,"    for (Tiny_Expr *exp = progHead; exp; exp = exp->next) {\n        if (exp->type != TINY_EXP_USE) {\n            continue;\n        }\n\n        // Find the module in the symbols\n        bool found = false;\n","    bool found = false;\n\n    for (Tiny_Expr *exp = progHead; exp; exp = exp->next) {\n        if (exp->type != TINY_EXP_USE) {\n            continue;\n        }\n\n        // Find the module in the symbols\n")],
r"""int main(void) { prog("use array(\"int\") as ai out(1)", "1\n"); prog("use nothing() out(1)", "rejected"); prog("use array(\"int\") as ai use nothing() out(1)", "rejected"); return bad; }""",
"a use of an unknown macro after a use of a known one","it is ignored")
seed("use-keeps-arguments","P35",[(T,"                char *args[128] = {0};\n                char **argp = args;\n","                static char *args[128];\n                static char **argp;\n                if (!argp || exp == progHead || exp->use.argsHead) argp = args;\n")],
r"""static int got = -1; static Tiny_MacroResult m(Tiny_State *s, char *const *a, int n, const char *as) { got = n; return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS}; }
int main(void) { Tiny_State *s = newState(); Tiny_BindMacro(s, "m", m); Tiny_CompileString(s, "a", "use m(\"x\")"); if (got != 1) bad = 1; Tiny_CompileString(s, "b", "use m()"); if (got != 0) bad = 1; Tiny_CompileString(s, "c", "use m(\"x\", \"y\") use m()"); if (got != 0) { printf("%d arguments\n", got); bad = 1; } return bad; }""",
"a use without arguments after one with arguments in the same source","it gets the arguments of the other one")
seed("shift-promotes","P01",[(T,"            if (b.type == TINY_VAL_INT) b.f = (Tiny_Float)b.i;    \\","            if (b.type == TINY_VAL_INT) b.f = (Tiny_Float)(int)b.i; \\")],
r"""int main(void) { prog("a := 1.5 out(a + 3)", "4.5\n"); prog("a := 0.5 b := 4294967297 out(a * b)", "2.14748e+09\n"); return bad; }""",
"an int right operand beyond 32 bits combined with a float","its upper bits are lost")
seed("recursion-null-locals","P08",[(T,"            memset(&thread->stack[thread->sp], 0, sizeof(Tiny_Value) * n);","            if (thread->fc < 2) memset(&thread->stack[thread->sp], 0, sizeof(Tiny_Value) * n);")],
r"""int main(void) { prog("func f(n: int): int { x := n if n > 0 { f(n - 1) } return x } out(f(3))", "3\n"); prog("func g(): any { if false { x := 1 } y := 2 return y } out(g())", "2\n"); prog("func junk(): int { a := 7 b := 8 return a + b } func u(k: bool): any { junk() return w(k) } func w(k: bool): any { x := cast(null, any) return x } out(u(false))", "null\n"); Tiny_State *s = newState(); used = 0; OUT[0] = 0; if (Tiny_CompileString(s, "m", "func h(k: bool): any { if k { x := cast(5, any) } return 1 } func two(k: bool) { if k { x := strcat(\"a\", \"b\") out(x) } for i := 0; i < 3; i += 1 { if i == 1 { q := i out(q) } } } func one(k: bool) { two(k) } one(true) one(false)").type != TINY_COMPILE_SUCCESS) return 2; Tiny_StateThread t; Tiny_InitThread(&t, s); Tiny_StartThread(&t); do t.maxNumObjects = 0; while (Tiny_ExecuteCycle(&t)); is("calls", OUT, "ab\n1\n1\n"); return bad; }""",
"a nested call whose locals reuse stack slots with stale objects","a collection follows references to freed objects")
