# Self-contained build of bic (sources copied into this directory).
VARIANT ?= plain
CC = gcc
CXX = g++
CPPFLAGS = -I.. -I. -DHAVE_CONFIG_H -DBIC_VERIF
W = -w
ifeq ($(VARIANT),asan)
  CC = clang
  CFLAGS = $(W) -g -O1 -fno-omit-frame-pointer -fsanitize=address -fno-sanitize-address-use-after-scope
  LDF = -fsanitize=address
  GCFLAGS = $(W) -g -O1 -fno-omit-frame-pointer
else ifeq ($(VARIANT),asanh)
  # Heap errors only, in all files: without instrumented stacks the collector can scan them.
  CC = clang
  CFLAGS = $(W) -g -O1 -fno-omit-frame-pointer -fsanitize=address -mllvm -asan-stack=0
  LDF = -fsanitize=address
  GCFLAGS = $(CFLAGS)
else ifeq ($(VARIANT),cov)
  CFLAGS = $(W) -g -O0 --coverage
  LDF = --coverage
  GCFLAGS = $(CFLAGS)
else
  CFLAGS = $(W) -g -O2
  GCFLAGS = $(CFLAGS)
endif
CXXFLAGS = -O0 $(W) -std=c++11
GENPROGS = gentypes genctypes gentree genaccess gengc gendump gendot genspecresolver genffitypes
GENHDR = tree.def ctypes.def tree-base.h tree-access.h cscriptparser.h replparser.h repllex.h
OBJS = tree.o list.o hash_table.o evaluate.o typename.o repllex.o replparser.o repl.o \
 pretty-printer.o util.o gc.o preprocess.o gc-internal.o tree-dump.o inspect.o \
 tree-dump-dot.o spec-resolver.o cscriptparser.o cscriptlex.o cscript.o ffi-types.o \
 function-call.o main.o

all: ../bic
../bic: $(OBJS)
	$(CC) $(LDF) -o $@.tmp $(OBJS) -lgmp -lffi -ldl -lreadline && mv $@.tmp $@

lang_lexer.h: lang_lexer.lpp
	flex --header-file=lang_lexer.h -o lang_lexer_.cpp lang_lexer.lpp && mv lang_lexer_.cpp lang_lexer.cpp
lang_lexer.cpp: lang_lexer.h ;
lang.o: lang.cpp lang.h lang_lexer.h
	$(CXX) $(CXXFLAGS) -I. -c -o $@ lang.cpp
lang_lexer.o: lang_lexer.cpp lang.h lang_lexer.h
	$(CXX) $(CXXFLAGS) -I. -c -o $@ lang_lexer.cpp
$(GENPROGS): %: %.cpp lang.o lang_lexer.o
	$(CXX) $(CXXFLAGS) -I. -o $@ $< lang.o lang_lexer.o
tree.def: gentypes c.lang
	./gentypes c.lang
ctypes.def: genctypes c.lang
	./genctypes c.lang
tree-base.h: gentree c.lang
	./gentree c.lang
tree-access.h: genaccess c.lang
	./genaccess c.lang
gc-internal.c: gengc c.lang
	./gengc c.lang
tree-dump.c: gendump c.lang
	./gendump c.lang
tree-dump-dot.c: gendot c.lang
	./gendot c.lang
ffi-types.c: genffitypes c.lang
	./genffitypes c.lang
spec-resolver.c: genspecresolver c.lang
	./genspecresolver c.lang

%lex.l: lex.m4 parser-lex-funcs.m4
	m4 -DTARGET=$* lex.m4 > $@
%parser.y: parser.m4 parser-lex-funcs.m4
	m4 -DTARGET=$* parser.m4 > $@
# same invocation (through temporary names) as automake's ylwrap: bison -y -d
%parser.h: %parser.y
	bison -y -Wnone -d -o $*parser.c $<
replparser.c: replparser.h ;
cscriptparser.c: cscriptparser.h ;
repllex.h: repllex.l
	flex --header-file=repllex.h -o /dev/null $<
repllex.c: repllex.l
	flex -o repllex.c repllex.l
cscriptlex.c: cscriptlex.l
	flex -o cscriptlex.c cscriptlex.l

$(OBJS): $(GENHDR)
gc.o: gc.c
	$(CC) $(CPPFLAGS) $(GCFLAGS) -c -o $@ $<
%.o: %.c
	$(CC) $(CPPFLAGS) $(CFLAGS) -c -o $@ $<
.SECONDARY:
.DELETE_ON_ERROR:
