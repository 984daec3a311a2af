"""Exceptions to fail with: one that nothing treats specially, and one that is of about every class code may single out."""

import asyncio
import socket

import aiohttp
from kubernetes_asyncio.client.rest import ApiException


class Boom(Exception):
    pass


class Everything(
    aiohttp.ServerTimeoutError, aiohttp.ServerDisconnectedError, aiohttp.ClientPayloadError, ApiException, socket.gaierror,
    ConnectionRefusedError, ConnectionResetError, ConnectionAbortedError, BrokenPipeError, InterruptedError, BlockingIOError,
    PermissionError, FileNotFoundError, FileExistsError, NotImplementedError, RecursionError, KeyError, IndexError,
    UnicodeError, TypeError, OverflowError, ZeroDivisionError, AssertionError, EOFError, BufferError, ReferenceError,
    MemoryError, asyncio.QueueFull, asyncio.QueueEmpty, asyncio.InvalidStateError,
):
    """A refused or reset connection, a timeout, an HTTP error, a failed lookup or conversion, all in one."""

    def __init__(self, what="", status=410):
        Exception.__init__(self, what)
        self.what, self.status = what, status
        self.reason, self.body, self.headers, self.message = "Expired", "{}", {}, "too old resource version"

    def __str__(self):
        return self.what

    __repr__ = __str__

    def __hash__(self):
        return id(self)


def failure(n, what=""):
    """An exception of the one kind or the other, by turns."""
    return Everything(what, (410, 500, 429, 503)[n // 2 % 4]) if n % 2 == 0 else Boom(what)
