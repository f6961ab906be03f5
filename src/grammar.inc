R"EBNF(
script = stmt | stmt ';' | stmt ';' stmt | stmt ';' stmt ';' | stmt ';' stmt ';' stmt { ';' stmt } ;
stmt = pstmt @9 | pstmt hints @3 | prepare @1 | prepare hints @1 | show @1 | import @1 | copyfrom @2 | copyto @2 ;
pstmt = select @8 | create @6 | insert @3 | delete @2 | truncate @1 | update @3 | drop @2 | alter @1 | execute @2 | trans @1 ;
hints = WITH HINT '(' hint { ',' hint } ')' ;
hint = ID | ID '(' extlits ')' ;
trans = BEGIN | BEGIN TRANSACTION | COMMIT | COMMIT TRANSACTION | ROLLBACK | ROLLBACK TRANSACTION ;
prepare = PREPARE ID FROM STR @1 | PREPARE ID FROM SQLSTR @3 ;
execute = EXECUTE ID | EXECUTE ID '(' ')' | EXECUTE ID '(' extlits ')' @4 ;
import = IMPORT FROM FT FILE STR INTO tname ;
copyfrom = COPY tname FROM STR copts where ;
copyto = COPY tname TO STR copts | COPY selparen TO STR copts ;
copts = @3 | WITH '(' COPTS ')' @3 | '(' COPTS ')' @3 ;
show = SHOW TABLES | SHOW COLUMNS tname | DESCRIBE tname ;
create = ctable @8 | cfrom @1 | ctas @2 | cindex @3 | cview @2 ;
ctable = CREATE TABLE ifnot tname '(' telem { ',' telem } ')' ;
cfrom = CREATE TABLE ifnot tname FROM TBLFT FILE STR ;
ctas = CREATE TABLE ifnot tname AS select ;
cindex = CREATE INDEX ifnot optname ON tname '(' ID { ',' ID } ')' ;
cview = CREATE VIEW ifnot tname optcols AS select ;
ifnot = @2 | IF NOT EXISTS ;
ifex = @2 | IF EXISTS ;
optname = | ID @2 ;
optcols = @2 | '(' ID { ',' ID } ')' ;
telem = coldef @5 | tcons @1 ;
coldef = ID ctype CONS ;
tcons = PRIMARY KEY '(' ID { ',' ID } ')' | UNIQUE '(' ID { ',' ID } ')' | FOREIGN KEY '(' ID { ',' ID } ')' refs ;
refs = REFERENCES tname optcols ;
ctype = BIGINT | BOOLEAN | CHAR '(' INT ')' | CHARACTER_VARYING '(' INT ')' | DATE | DATETIME | DECIMAL | DECIMAL '(' INT ')' | DECIMAL '(' INT ',' INT ')'
      | DOUBLE | FLOAT | INT_ | INTEGER | LONG | REAL | SMALLINT | TEXT | TIME | TIME '(' INT ')' | TIMESTAMP | VARCHAR '(' INT ')' ;
drop = DROP TABLE ifex tname | DROP VIEW ifex tname | DEALLOCATE PREPARE ID | DROP INDEX ifex ID ;
alter = ALTER TABLE ifex tname DROP COLUMN ifex ID ;
delete = DELETE FROM tname where ;
truncate = TRUNCATE tname ;
insert = INSERT INTO tname optcols VALUES '(' extlits ')' @3 | INSERT INTO tname optcols selnp @1 ;
update = UPDATE tname SET upd { ',' upd } where ;
upd = ID '=' expr ;
where = @2 | WHERE expr @1 ;
extlits = extlit { ',' extlit } ;
extlit = elit @5 | CAST '(' elit AS ctype ')' ;
elit = clit @4 | '-' num | '-' ivlit ;
clit = STR @3 | TRUE | FALSE | num @4 | NULL | DATE DATESTR | ivlit ;
num = INT @3 | FLT ;
ivlit = INT ivunit @2 | INTERVAL IVNUM dtf | INTERVAL IVFULL ;
dtf = SECOND | MINUTE | HOUR | DAY | MONTH | YEAR ;
ivunit = SECOND | MINUTE | HOUR | DAY | MONTH | YEAR | SECONDS | MINUTES | HOURS | DAYS | MONTHS | YEARS ;
lit = clit @8 | PARAM ;
select = sel0 @6 | with sel0 @1 ;
with = WITH wd { ',' wd } ;
wd = ID AS selparen ;
sel0 = selnp @6 | selparen @1 | selparen setop setin order limit @1 ;
selparen = '(' selnp ')' @6 | '(' selparen ')' @1 ;
selnp = selc order limit lock @5 | selc setop setin order limit lock @1 ;
setin = selparen | selc @3 | selc setop setin @1 ;
setop = UNION | UNION ALL | INTERSECT | INTERSECT ALL | EXCEPT | EXCEPT ALL ;
selc = SELECT top dist elist from where group ;
top = @8 | TOP INT ;
dist = @5 | DISTINCT ;
elist = ealias { ',' ealias } ;
ealias = expr @4 | expr AS ID | expr ID ;
from = @2 | FROM tref @5 ;
group = @4 | GROUP BY elist | GROUP BY elist HAVING expr ;
order = @4 | ORDER BY ord { ',' ord } ;
ord = expr odir nulls ;
odir = @2 | ASC | DESC ;
nulls = @4 | NULLSORD ;
limit = @5 | LIMIT expr | OFFSET expr | LIMIT expr OFFSET expr | LIMIT ALL | LIMIT ALL OFFSET expr ;
lock = @6 | lk | lk lk | lk lk { lk } ;
lk = FOR lmode lof lpol ;
lmode = UPDATE | NO KEY UPDATE | SHARE | KEY SHARE ;
lof = | OF ID { ',' ID } ;
lpol = | SKIP LOCKED | NOWAIT ;
tref = tatom @5 | tatom ',' tatom { ',' tatom } ;
tatom = tnj @3 | join ;
tnj = tname talias @5 | '(' select ')' talias @1 ;
talias = @3 | ID | AS ID | AS ID '(' ID { ',' ID } ')' ;
join = tatom NATURAL JOIN tnj | tatom jt JOIN tatom ON expr @4 | tatom jt JOIN tatom USING '(' ID { ',' ID } ')' @2 ;
jt = @3 | INNER | LEFT | LEFT OUTER | RIGHT | RIGHT OUTER | FULL | FULL OUTER | OUTER | CROSS ;
tname = ID @3 | ID '.' ID ;
expr = opnd @8 | between @1 | expr AND expr @2 | expr OR expr @2 | exists @1 | inx @1 ;
between = opnd BETWEEN opnd AND opnd ;
exists = EXISTS '(' selnp ')' | NOT EXISTS '(' selnp ')' ;
inx = opnd IN '(' elist ')' @2 | opnd NOT IN '(' elist ')' @2 | opnd IN '(' selnp ')' | opnd NOT IN '(' selnp ')' ;
opnd = col @8 | lit @6 | '(' expr ')' @1 | opnd '[' INT ']' @1 | '-' opnd @1 | NOT opnd @1 | opnd ISNULL @1 | opnd IS NULL @1 | opnd IS NOT NULL @1
     | opnd binop opnd @6 | case @1 | func @2 | EXTRACT '(' dtf FROM expr ')' @1 | CAST '(' expr AS ctype ')' @1 | ARRAY '[' elist ']' @1 | '(' selnp ')' @1 ;
binop = '+' | '-' | '*' | '/' | '%' | '^' | CONCAT | '=' | EQUALS | NOTEQUALS | '<' | '>' | LESSEQ | GREATEREQ | LIKE | NOT LIKE | ILIKE ;
col = ID @4 | ID '.' ID @2 | '*' @1 | ID '.' '*' @1 ;
case = CASE whens END | CASE expr whens END | CASE whens ELSE expr END | CASE expr whens ELSE expr END ;
whens = WHEN expr THEN expr { WHEN expr THEN expr } ;
func = ID '(' ')' win | ID '(' dist elist ')' win @3 | ID '.' ID '(' ')' win | ID '.' ID '(' dist elist ')' win ;
win = @5 | OVER '(' part order frame ')' ;
part = | PARTITION BY elist ;
frame = @2 | ftype fb | ftype BETWEEN fb AND fb @2 ;
ftype = RANGE | ROWS | GROUPS ;
fb = UNBOUNDED PRECEDING | UNBOUNDED FOLLOWING | INT PRECEDING | INT FOLLOWING | CURRENT_ROW ;
)EBNF"
