#!/usr/bin/env python3
"""Writes /verif/known-findings.txt: the defects repaired in /repo, by the property they broke."""
import subprocess, os
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OF = {  # subject -> property, what failed
"no command and no peer was answered while a large file was being shared": ("C30", "flu share locked the catalogue while it hashed the file, for about 0.7 s per GB, and meanwhile no command and no peer was answered"),
"a shared file of more than 256 GiB had more chunks than can be numbered": ("C24", "a shared file of more than 256 GiB had more than 65536 chunks, which discovery replies and requests cannot number, so no host could fetch it"),
"Bitset.Unset no longer corrupts the set when the bit is already unset": ("C12", "Unset of an index that is not set flipped it on and decremented the count"),
"Bitset.Union and Intersect keep the size of their result": ("C12", "the union or intersection of bitsets of different sizes lost its size or members"),
"Bitset.Get and Unset accept any out-of-bounds index": ("C12", "Get and Unset panicked for an index just beyond the last word"),
"bitset.Deserialize rejects truncated or inconsistent data": ("C13", "Deserialize panicked for short input and accepted inconsistent sizes and counts"),
"Bitset.Overlap ignores an unpaired trailing index": ("C04", "a discovery request with an odd number of chunk indices killed the daemon"),
"messages.Parse returns an error for truncated messages": ("C11", "Parse panicked for any truncated message"),
"discovery messages carry at most the ranges their count can describe": ("C07", "with 128 or more held ranges the advertised list's count wrapped"),
"a ListFilesRequest for an unknown file no longer kills the daemon": ("C04", "a list request for an unknown hash ended the process"),
"listing a host's files accepts responses longer than 1024 bytes": ("C08", "listing a host with more than about 15 files failed"),
"the daemon parses only the bytes of a datagram it received": ("C11", "the zero padding of the receive buffer was parsed as part of the message"),
"an unreachable network no longer kills the daemon": ("C25", "flu list or chims without a route ended the daemon"),
"a host without a LAN address no longer dereferences a nil IP": ("C04", "a discovery request to a host without a LAN address panicked"),
"responses arriving as host discovery times out no longer deadlock the server": ("C09", "two replies arriving just as a discovery timed out deadlocked every later discovery"),
"Cat.Contains and Cat.Rehash take the catalogue's lock": ("C18", "the index map was read unlocked while others wrote it"),
"unsharing or completing a file during its download no longer panics": ("C30", "unshare, clean or a second get during a download ended the daemon"),
"the downloader releases a chunk's socket and goroutine when it is done": ("C21", "every downloaded chunk leaked a socket and a goroutine"),
"a chunk whose hash does not match is not saved": ("C02", "a corrupted chunk was saved and marked as downloaded"),
"malformed packets from a sending peer no longer crash the downloader": ("C05", "short datagrams, data before the opener, bad offsets or sizes panicked"),
"a chunk that cannot be read in full is not served, and not read forever": ("C27", "a truncated file was served as shorter chunks; a directory in its place hung the daemon"),
"an upload ends when its transfer does, and does not leak into the next one": ("C28", "a port that was used again was sent the old chunk's bytes; uploads leaked"),
"duplicated acks no longer stall an upload": ("C29", "a duplicated acknowledgement wrapped the window size and stalled the transfer"),
"a crash while the index or a progress file is written does not destroy it": ("C16", "a kill during the write of the index lost it"),
"the index never refers to a progress file that does not exist": ("C16", "a kill or failed write left a record without progress file, after which every listing failed"),
"a download's file name and sizes are validated before it is registered": ("C06", "a peer's file name like ../../x made the download write outside the downloads directory"),
"create the downloads directory before downloading into it": ("C03", "the first download's chunks could not be saved"),
"a download never writes into a file that something else created": ("C06", "downloads of different files with one name, or an existing file, were overwritten"),
"SaveChunk rejects chunks that do not exist or have the wrong length": ("C26", "a chunk of the wrong length overwrote its neighbour or was recorded as complete"),
"a catalogue saves its index where it was opened": ("C15", "a moved or copied catalogue saved its index in the old place"),
"a downloaded file is checked against the hash that was asked for": ("C03", "a file with another SHA-1 stayed listed under the one asked for"),
"'flu list' with an IPV6 address no longer kills the daemon": ("C25", "flu list ::1 ended the daemon"),
"printing an empty file or an unpaired chunk index does not crash the CLI": ("C25", "printing an empty file divided by zero"),
"'flu share' resolves a relative path where the user typed it": ("C25", "flu share of a relative path shared another file or none"),
"'flu get' without a hash prints its usage instead of panicking": ("C25", "flu get without arguments panicked"),
"a shared path that is not valid UTF-8 survives a restart": ("C15", "a path that is not UTF-8 was altered by a restart"),
"sharing, checking or serving a pipe or device does not block the daemon": ("C25", "flu share of a pipe blocked the daemon with the catalogue locked"),
"a download is refused if its destination cannot be examined": ("C06", "a name that is too long was registered though it can never be written"),
"a peer that keeps sending cannot occupy the downloader forever": ("C05", "a peer trickling packets kept all downloads waiting for as long as it liked"),
"Rehash returns a blank hash for a file that is not in the catalogue": ("C30", "clean dereferenced a nil hash if an entry was removed and added again while it ran"),
"running out of file descriptors does not kill the daemon": ("C04", "a discovery request while peers held as many uploads open as the daemon may have files made it panic"),
"the CLI interface survives a failure to accept a connection": ("C25", "after the daemon had once run out of descriptors no CLI request was accepted any more"),
"a download does not busy-loop while there is no network": ("C30", "a download without network retried and logged as fast as it could"),
"clean does not drop files from the index because the daemon has too many open": ("C20", "a clean while peers hold as many uploads open as the daemon may have files removed untouched files from the index as missing"),
"a CLI request without a hash is refused": ("C25", "a CLI request whose hash is missing ended the daemon"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out = ["# Defects of flu-network/client found while building the checks.",
"# 'fixed:' entries are repaired in /repo and suppress nothing. There are no 'known:' entries."]
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        p, w = OF[s[5:]]
        out.append(f"fixed: property={p} {h} {w}")
open(os.path.join(top, "known-findings.txt"), "w").write("\n".join(out) + "\n")
