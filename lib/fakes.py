"""Stand-ins for the Postgres and MySQL client libraries: connections whose statements are answered by a function of the harness.

server = Server(handler); with server.psycopg(): ... PostgresInterface("dbname=x") ...
handler(sql, params) -> list of rows, or None for statements without a result; it may raise.
"""
from __future__ import annotations

import contextlib
import threading
import types

import psycopg


class Server:
    def __init__(self, handler, dbname="db", version="16.4", settings=(("work_mem", "4096"), ("enable_hashjoin", "on"))):
        self.handler, self.dbname, self.version, self.settings = handler, dbname, version, list(settings)
        self.log = []           # (connection id, statement) that reached the handler
        self.admin = []         # bookkeeping statements of the interface itself
        self.conns = []
        self.lock = threading.Lock()

    def connect(self, *args, **kwargs):
        with self.lock:
            con = Connection(self, len(self.conns) + 1, args, kwargs)
            self.conns.append(con)
        return con

    def answer(self, con, sql, params):
        text = " ".join(str(sql).split())
        up = text.upper().rstrip(";")
        if up == "SELECT VERSION()":
            return self._admin(con, text, [(f"PostgreSQL {self.version} (fake)" if not self.mysql else self.version,)])
        if up in ("SELECT CURRENT_DATABASE()", "SELECT DATABASE()"):
            return self._admin(con, text, [(self.dbname,)])
        if up == "SELECT @@SESSION.SQL_MODE":
            return self._admin(con, text, [("ANSI_QUOTES",)])
        if up.startswith("SHOW PG_HINT_PLAN"):
            return self._admin(con, text, [("on",)])
        if up == "SELECT NAME, SETTING FROM PG_SETTINGS":
            return self._admin(con, text, list(self.settings))
        with self.lock:
            self.log.append((con.ident, str(sql)))
        return self.handler(str(sql), params)

    mysql = False

    def _admin(self, con, text, rows):
        with self.lock:
            self.admin.append((con.ident, text))
        return rows

    @contextlib.contextmanager
    def psycopg(self):
        orig = psycopg.connect
        psycopg.connect = self.connect
        try:
            yield self
        finally:
            psycopg.connect = orig

    @contextlib.contextmanager
    def mysqlconnector(self):
        import mysql.connector as mc
        orig = mc.connect
        mc.connect = self.connect
        self.mysql = True
        try:
            yield self
        finally:
            mc.connect = orig


class Connection:
    def __init__(self, server, ident, args, kwargs):
        self.server, self.ident, self.args, self.kwargs = server, ident, args, kwargs
        self.autocommit = False
        self.closed = False
        self.cancelled = 0
        self.adapters = types.SimpleNamespace(register_dumper=lambda *a: None, register_loader=lambda *a: None)
        self.info = types.SimpleNamespace(backend_pid=100000 + ident, host="fake")

    def cursor(self, *args, **kwargs):
        return Cursor(self)

    def cancel(self):
        self.cancelled += 1

    def close(self):
        self.closed = True

    def commit(self):
        pass

    def rollback(self):
        pass

    def cmd_reset_connection(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Cursor:
    def __init__(self, con):
        self.con, self.rows, self.rowcount, self.closed = con, None, -1, False

    def execute(self, sql, params=None):
        if self.con.closed or self.closed:
            raise psycopg.OperationalError("the connection is closed")
        self.rows = None
        rows = self.con.server.answer(self.con, sql, params)
        self.rows = None if rows is None else list(rows)
        self.rowcount = -1 if rows is None else len(self.rows)
        return self

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None

    def fetchall(self):
        if self.rows is None:
            raise psycopg.ProgrammingError("the last operation didn't produce records")
        rows, self.rows = self.rows, []
        return rows

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
