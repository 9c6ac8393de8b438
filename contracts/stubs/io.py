"""What the contracts assume of files. Never imported."""
from dataclasses import dataclass


@dataclass
class File:
    path: str
    chunks: list[bytes]

    def write(self, data: bytes) -> int: ...


def open(path: str, mode: str) -> File: ...
