// Independent lexer of the SQL dialect, written from the documentation; never calls the code under test.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

#define VF_KEYWORDS(X) \
  X(ADD) X(AFTER) X(ALL) X(ALTER) X(ANALYZE) X(AND) X(ARRAY) X(AS) X(ASC) X(BEFORE) X(BEGIN) X(BETWEEN) X(BIGINT) \
  X(BOOLEAN) X(BY) X(CALL) X(CASCADE) X(CASE) X(CAST) X(CHAR) X(COLUMN) X(COLUMNS) X(COMMIT) X(CONTROL) X(COPY) \
  X(CREATE) X(CROSS) X(DATE) X(DATETIME) X(DAY) X(DAYS) X(DEALLOCATE) X(DECIMAL) X(DEFAULT) X(DELETE) X(DELTA) \
  X(DESC) X(DESCRIBE) X(DIRECT) X(DISTINCT) X(DOUBLE) X(DROP) X(ELSE) X(ENCODING) X(END) X(ESCAPE) X(EXCEPT) \
  X(EXECUTE) X(EXISTS) X(EXPLAIN) X(EXTRACT) X(FALSE) X(FILE) X(FLOAT) X(FOLLOWING) X(FOR) X(FOREIGN) X(FORMAT) \
  X(FROM) X(FULL) X(GLOBAL) X(GROUP) X(GROUPS) X(HASH) X(HAVING) X(HINT) X(HOUR) X(HOURS) X(IF) X(ILIKE) X(IMPORT) \
  X(IN) X(INDEX) X(INNER) X(INSERT) X(INT) X(INTEGER) X(INTERSECT) X(INTERVAL) X(INTO) X(IS) X(ISNULL) X(JOIN) \
  X(KEY) X(LEFT) X(LIKE) X(LIMIT) X(LOAD) X(LOCAL) X(LOCKED) X(LONG) X(MERGE) X(MINUS) X(MINUTE) X(MINUTES) X(MONTH) \
  X(MONTHS) X(NATURAL) X(NO) X(NOT) X(NOWAIT) X(NULL) X(NVARCHAR) X(OF) X(OFF) X(OFFSET) X(ON) X(OR) X(ORDER) \
  X(OUTER) X(OVER) X(PARAMETERS) X(PARTITION) X(PLAN) X(PRECEDING) X(PREPARE) X(PRIMARY) X(RANGE) X(REAL) \
  X(REFERENCES) X(RENAME) X(RESTRICT) X(RIGHT) X(ROLLBACK) X(ROWS) X(SCHEMA) X(SCHEMAS) X(SECOND) X(SECONDS) \
  X(SELECT) X(SET) X(SHARE) X(SHOW) X(SKIP) X(SMALLINT) X(SORTED) X(SPATIAL) X(TABLE) X(TABLES) X(TEMPORARY) X(TEXT) \
  X(THEN) X(TIME) X(TIMESTAMP) X(TO) X(TOP) X(TRANSACTION) X(TRUE) X(TRUNCATE) X(UNBOUNDED) X(UNION) X(UNIQUE) \
  X(UNLOAD) X(UPDATE) X(USING) X(VALUES) X(VARCHAR) X(VIEW) X(VIRTUAL) X(WHEN) X(WHERE) X(WITH) X(YEAR) X(YEARS)

enum Tk : int {
  T_EOF = 0,
  // single characters are represented by their code (< 128)
  T_ID = 200, T_STR, T_INT, T_FLOAT,
  T_EQEQ, T_NE, T_LE, T_GE, T_CONCAT,
  T_CURRENT_ROW, T_CHARACTER_VARYING,
  T_INVALID,  // unknown character, unterminated string/identifier, integer out of range
  K_FIRST_ = 300,
#define X(n) K_##n,
  VF_KEYWORDS(X)
#undef X
  K_END_
};

enum BadKind { BAD_NONE, BAD_CHAR, BAD_STRING, BAD_QUOTE, BAD_INT };

struct Tok {
  int kind = T_EOF;
  size_t b = 0, e = 0;       // byte extent
  int line = 0, col = 0;     // zero-based position of the first byte
  int endLine = 0, endCol = 0;
  std::string s;             // identifier / string value
  int64_t i = 0;
  double f = 0;
  BadKind bad = BAD_NONE;
};

// Quirks of the scanner under test that are recorded as known findings; see known_findings.txt
enum LexFlag : unsigned {
  LF_TWOWORD_PREFIX = 1,   // identifier following CURRENT / CHARACTER that merely starts with ROW / VARYING
  LF_LLMIN_PREFIX = 2,     // "-9223372036854775808" directly followed by a digit or '.'
};

struct LexOut {
  std::vector<Tok> t;        // always ends with T_EOF; stops after the first T_INVALID if stopAtInvalid
  unsigned flags = 0;
  bool hasInvalid = false;
  size_t firstInvalid = 0;   // token index
  size_t lastLexemeStart = 0;  // byte offset of the last lexeme (token, blank run or comment)
  int lastLexLine = 0, lastLexCol = 0;
  int endLine = 0, endCol = 0;
  size_t comments = 0;
};

void refLex(const std::string& text, LexOut& out, bool stopAtInvalid = true);
const char* tokName(int kind);
int keywordOf(const std::string& word);  // 0 if none
const std::vector<int>& allKeywords();
