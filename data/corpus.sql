SELECT 1
SELECT * FROM orders;
SELECT a, b AS x, c y FROM foo.bar
SELECT DISTINCT a, t.b, t.* FROM t AS u
SELECT TOP 10 a FROM t
SELECT TOP 10 a FROM t ORDER BY a LIMIT 5
SELECT a FROM t WHERE a > 10 AND b < 2.5 OR NOT c = 'x'
SELECT a FROM t WHERE a >= 1 AND a <= 2 AND b <> 3 AND b != 4 AND c == 5
SELECT a FROM t GROUP BY a, b + 1 HAVING count(*) > 3
SELECT a FROM t ORDER BY a, b DESC, c ASC NULLS FIRST, d DESC NULLS LAST
SELECT a FROM t LIMIT 10 OFFSET 20
SELECT a FROM t OFFSET 5
SELECT a FROM t LIMIT ALL
SELECT a FROM t LIMIT ALL OFFSET 3
SELECT a FROM t LIMIT (SELECT max(x) FROM y)
SELECT * FROM a, b, c.d AS e, (SELECT 1) AS f (g, h)
SELECT * FROM a JOIN b ON a.id = b.id
SELECT * FROM a INNER JOIN b ON x LEFT JOIN c ON y RIGHT OUTER JOIN d ON z
SELECT * FROM a FULL OUTER JOIN b USING (x, y) OUTER JOIN c ON 1 CROSS JOIN d ON 2
SELECT * FROM a NATURAL JOIN b NATURAL JOIN s.c AS d
SELECT * FROM a JOIN b JOIN c ON x ON y
SELECT * FROM a LEFT OUTER JOIN (SELECT * FROM c) d ON a.x = d.x, e FULL JOIN f USING (g)
SELECT * FROM t1 AS x (a, b) JOIN t2 y ON x.a = y.a
SELECT a FROM t UNION SELECT b FROM u
SELECT a FROM t UNION ALL SELECT b FROM u INTERSECT SELECT c FROM v EXCEPT ALL SELECT d FROM w ORDER BY 1 LIMIT 3 OFFSET 1
(SELECT a FROM t) UNION (SELECT b FROM u) ORDER BY a
(SELECT a FROM t ORDER BY b LIMIT 1) EXCEPT SELECT c FROM d UNION SELECT e FROM f LIMIT 2
((SELECT 1))
SELECT 1 INTERSECT (SELECT 2 UNION SELECT 3 LIMIT 1)
WITH a AS (SELECT 1), b AS (SELECT 2 FROM a) SELECT * FROM a, b
WITH w AS ((SELECT 1)) (SELECT * FROM w)
SELECT a FROM t FOR UPDATE
SELECT a FROM t FOR NO KEY UPDATE NOWAIT
SELECT a FROM t FOR SHARE SKIP LOCKED FOR KEY SHARE OF t, u
SELECT a FROM t LIMIT 1 FOR UPDATE OF t NOWAIT FOR SHARE OF u SKIP LOCKED
SELECT 1 UNION SELECT 2 ORDER BY 1 FOR UPDATE
SELECT a + b - c * d / e % f ^ g || h
SELECT -a, - -1, NOT b, NOT NOT c
SELECT a IS NULL, b IS NOT NULL, c ISNULL
SELECT a[1], a[0][2], (b)[3]
SELECT a LIKE 'x%', b NOT LIKE '_y', c ILIKE 'z'
SELECT a IN (1, 2), b NOT IN ('x'), c IN (SELECT 1), d NOT IN (SELECT e FROM f)
SELECT a BETWEEN 1 AND 2, b BETWEEN c + 1 AND d * 2
SELECT 1 FROM t WHERE a BETWEEN 1 AND 2 AND b IN (3) AND NOT EXISTS (SELECT 4) OR EXISTS (SELECT 5)
SELECT NOT a IN (1), NOT a BETWEEN 1 AND 2, NOT a LIKE 'x', NOT a NOT IN (2)
SELECT CASE WHEN a THEN b END, CASE a WHEN 1 THEN 'x' WHEN 2 THEN 'y' ELSE 'z' END
SELECT CASE WHEN a = 1 THEN b WHEN a = 2 THEN c ELSE CASE d WHEN e THEN f END END AS g
SELECT f(), f(a), s.f(a, b), count(DISTINCT a), s.g()
SELECT sum(a) OVER (), rank() OVER (PARTITION BY a, b ORDER BY c DESC, d NULLS LAST)
SELECT f(a) OVER (ORDER BY b ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW)
SELECT f(a) OVER (PARTITION BY b RANGE BETWEEN 3 PRECEDING AND 4 FOLLOWING), s.f(DISTINCT a, b) OVER (GROUPS UNBOUNDED FOLLOWING)
SELECT f(a) OVER (ROWS CURRENT ROW), g(b) OVER (ORDER BY c RANGE 5 PRECEDING)
SELECT EXTRACT(YEAR FROM a), EXTRACT(SECOND FROM DATE '2020-01-02'), EXTRACT(MONTH FROM b) AS m
SELECT EXTRACT(MINUTE FROM a), EXTRACT(HOUR FROM a), EXTRACT(DAY FROM a)
SELECT CAST(a AS INT), CAST('1' AS VARCHAR(10)), CAST(b AS DECIMAL(10, 2)), CAST(c AS TIME(3))
SELECT CAST(a AS CHAR(3)), CAST(a AS CHARACTER VARYING(4)), CAST(a AS DATETIME), CAST(a AS TIMESTAMP), CAST(a AS DOUBLE)
SELECT CAST(a AS FLOAT), CAST(a AS LONG), CAST(a AS REAL), CAST(a AS SMALLINT), CAST(a AS TEXT), CAST(a AS BIGINT), CAST(a AS BOOLEAN), CAST(a AS DATE), CAST(a AS INTEGER), CAST(a AS DECIMAL), CAST(a AS DECIMAL(5)), CAST(a AS TIME)
SELECT ARRAY[1, 2, 3], ARRAY[a, 'b'][0]
SELECT 1, 2.5, .5, 3., 'str', 'it''s', TRUE, FALSE, NULL, DATE '1999-12-31', ?, "quoted id"
SELECT INTERVAL '1' DAY, INTERVAL '2 months', 3 YEARS, 4 second, 5 HOURS, INTERVAL '10 Seconds', INTERVAL '-5' MINUTE
SELECT 1 minutes, 2 DAYS, 3 MONTHS, 4 month, 5 year, 6 day, 7 hour, 8 MINUTE, 9 SECONDS
SELECT (SELECT 1), (SELECT a FROM b WHERE c = (SELECT d))
SELECT * FROM (SELECT * FROM (SELECT 1) a) b WHERE x IN (SELECT y FROM z)
SELECT ? FROM t WHERE a = ? AND b IN (?, ?) LIMIT ?
SELECT a FROM t WITH HINT (NO_CACHE, SAMPLE_RATE(10), X('a', -1, NULL))
SELECT 9223372036854775807, -9223372036854775808, 0, 007, 010
SELECT a FROM t -- comment
SELECT a, -- first\n  b -- second\nFROM t
CREATE TABLE t (a INT, b VARCHAR(50), c DOUBLE NOT NULL, d TEXT NULL)
CREATE TABLE IF NOT EXISTS s.t (a INTEGER PRIMARY KEY, b BIGINT UNIQUE NOT NULL, c CHAR(5))
CREATE TABLE t (a DECIMAL, b DECIMAL(5), c DECIMAL(10, 3), d TIME, e TIME(6), f TIMESTAMP, g DATETIME, h DATE, i BOOLEAN)
CREATE TABLE t (a LONG, b REAL, c SMALLINT, d FLOAT, e CHARACTER VARYING(7), f INT UNIQUE PRIMARY KEY)
CREATE TABLE t (a INT, b INT, PRIMARY KEY (a, b), UNIQUE (b), FOREIGN KEY (a) REFERENCES u (x))
CREATE TABLE t (a INT REFERENCES u, b INT REFERENCES s.v (w) NOT NULL, c INT NOT NULL REFERENCES x (y, z) REFERENCES q)
CREATE TABLE t (a INT, FOREIGN KEY (a, b) REFERENCES s.u, CONSTRAINT INT)
CREATE TABLE t FROM TBL FILE 'students.tbl'
CREATE TABLE IF NOT EXISTS s.t FROM tbl FILE 'x'
CREATE TABLE t AS SELECT a, b FROM c WHERE d
CREATE TABLE IF NOT EXISTS t AS WITH x AS (SELECT 1) SELECT * FROM x
CREATE VIEW v AS SELECT 1
CREATE VIEW IF NOT EXISTS s.v (a, b) AS SELECT c, d FROM e
CREATE INDEX i ON t (a)
CREATE INDEX ON t (a, b)
CREATE INDEX IF NOT EXISTS i ON s.t (a, b, c)
DROP TABLE t
DROP TABLE IF EXISTS s.t
DROP VIEW v
DROP VIEW IF EXISTS s.v
DROP INDEX i
DROP INDEX IF EXISTS i
DEALLOCATE PREPARE p
ALTER TABLE t DROP COLUMN c
ALTER TABLE IF EXISTS s.t DROP COLUMN IF EXISTS c
INSERT INTO t VALUES (1, 'a', 2.5, NULL, TRUE, -3, -4.5, DATE '2020-02-30')
INSERT INTO s.t (a, b) VALUES (CAST('1' AS INT), CAST(-5 AS BIGINT))
INSERT INTO t VALUES (INTERVAL '1 day', -INTERVAL '2' HOUR, 3 DAYS, -4 YEARS, FALSE)
INSERT INTO t SELECT * FROM u
INSERT INTO s.t (a, b) SELECT c, d FROM e WHERE f UNION SELECT 1, 2
DELETE FROM t
DELETE FROM s.t WHERE a = 1
TRUNCATE t
TRUNCATE s.t
UPDATE t SET a = 1
UPDATE s.t SET a = 1, b = 'x', c = c + 1 WHERE d = ? OR e IN (1)
UPDATE t SET a = (SELECT 1), b = CASE WHEN c THEN d END WHERE EXISTS (SELECT 2)
BEGIN
BEGIN TRANSACTION
COMMIT
COMMIT TRANSACTION
ROLLBACK
ROLLBACK TRANSACTION
PREPARE p FROM 'SELECT * FROM t WHERE a = ?'
PREPARE p FROM 'INSERT INTO t VALUES (''x'')' WITH HINT (h)
PREPARE p FROM 'SELECT ?; SELECT ?'
EXECUTE p
EXECUTE p ()
EXECUTE p (1, 'a', NULL, -2, CAST(3 AS INT), DATE '2020-01-01')
IMPORT FROM CSV FILE 'f.csv' INTO t
IMPORT FROM TBL FILE 'f' INTO s.t
IMPORT FROM BINARY FILE 'f' INTO t
IMPORT FROM bin FILE 'f' INTO t
COPY t FROM 'f'
COPY s.t FROM 'f' WITH (FORMAT CSV, DELIMITER ',', NULL 'N', QUOTE '"')
COPY t FROM 'f' (ENCODING 'Dictionary', FORMAT TBL) WHERE a > 1 AND b
COPY t FROM 'f' WITH (QUOTE 'q', ENCODING 'e')
COPY t FROM 'f' WHERE a = ?
COPY t TO 'f'
COPY s.t TO 'f' WITH (FORMAT BINARY, ENCODING 'x')
COPY t TO 'f' (NULL 'x', FORMAT CSV)
COPY (SELECT a FROM t WHERE b = ?) TO 'f' WITH (DELIMITER ';', FORMAT CSV, NULL '')
COPY ((SELECT 1)) TO 'f'
SHOW TABLES
SHOW COLUMNS t
SHOW COLUMNS s.t
DESCRIBE t
DESCRIBE s.t
SELECT 1; SELECT 2; SELECT 3;
INSERT INTO t VALUES (1); DELETE FROM t WHERE a = ?; SELECT ? FROM u; SHOW TABLES; COMMIT;
CREATE TABLE t (a INT); CREATE INDEX i ON t (a); DROP TABLE t
SELECT * FROM t WHERE a = ? ; \n UPDATE t SET b = ? WHERE c = ?;\n\n PREPARE q FROM 'SELECT ?'
SELECT a FROM t WHERE d = DATE '2020-13-01x'
SELECT INTERVAL '1 fortnight'
SELECT INTERVAL 'x' DAY
SELECT INTERVAL 'y days'
SELECT a FROM t ORDER BY a NULLS MIDDLE
SELECT a FROM t ORDER BY a foo bar, b
INSERT INTO t VALUES (1, ?, 3)
EXECUTE p (?)
SELECT 1 WITH HINT (h(1, ?))
CREATE TABLE t (a INT NULL NOT NULL, b INT)
CREATE TABLE t (a INT NULL PRIMARY KEY, b TEXT, c INT NOT NULL NULL)
CREATE TABLE t (a INT NULL NOT NULL, b INT x)
CREATE TABLE t FROM CSV FILE 'f'
IMPORT FROM XLS FILE 'f' INTO t
COPY t FROM 'f' WITH (FORMAT CSV, FORMAT TBL)
COPY t FROM 'f' WITH (ENCODING 'a', ENCODING 'b')
COPY t TO 'f' WITH (DELIMITER 'a', QUOTE 'b', DELIMITER 'c')
COPY t TO 'f' (FORMAT TBL, QUOTE 'x')
COPY t TO 'f' (NULL 'x', FORMAT BIN)
COPY t TO 'f' (ESCAPER 'x')
SELECT * FROM t WHERE
SELECT a FROM
SELECT 'unterminated
SELECT "unterminated
SELECT 1 ! 2
SELECT 99999999999999999999
SELECT a FROM t;;
;
