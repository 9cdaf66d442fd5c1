"""Rewrites the "fixed" entries of known_findings.jsonl from the list below."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
    "do not raise an application error again": ("C08", "an error of the application that a dispatch function had handled was raised a second time after the response"),
    "do not finish a response whose": ("C08", "a response whose application failed in mid-stream was finished as if it were complete when dispatch middleware was in between"),
    "report an OSError of a streamed": ("C08", "an OSError raised by the application's content iterator was reported as a disconnect of the client"),
    "gzip middleware accepts response body": ("C05", "gzip middleware raised KeyError for a response body message without a body key"),
    "gzip middleware does not change the header": ("C05", "gzip middleware changed the header list of a response object used for several requests"),
    "middleware accepts response start": ("C05", "middleware raised KeyError for a response start message without headers, and changed the application's header list"),
    "close the files of a form whenever": ("C03", "files of a form stayed open when parsing failed with anything but a multipart error"),
    "roll an uploaded file over": ("C03", "an uploaded file was rolled over to disk on the event loop thread"),
    "close the file of a part": ("C03", "the file of a part cut off by the end of the form stayed open"),
    "close uploaded files on disk when": ("C03", "uploaded files on disk stayed open when the request was being cancelled"),
    "close every file of a form": ("C03", "the remaining files of a form stayed open when closing one failed"),
    "middleware does not change the message": ("C05", "middleware changed the message objects the application sent"),
    "polling for a disconnect behind": ("C23", "is_disconnected() behind dispatch middleware answered no although the client was gone"),
    "a multipart range response ends": ("C14", "a response with several ranges looped forever when its file was truncated"),
    "reject a range whose end": ("C14", "a range whose end is just before its start was answered with an empty 206"),
    "a range with an overlong": ("C14", "a range with more digits than int() converts was a server error"),
    "an entity tag that does not": ("C15", "a modified file with an entity tag that does not match was answered 304 because of If-Modified-Since"),
    "the test client does not decode the path of a request twice": ("C25", "the test client decoded the path twice: /%2541 reached the application as /A"),
    "websocket_connect of the test client does not change": ("C25", "the test client added its handshake headers to the caller's dictionary, so that a later session asked for the subprotocols of an earlier one"),
    "the test client keeps a user agent given in another": ("C25", "the test client sent its own user agent although one had been given with another case"),
    "StaticFiles resolves a served symbolic link once": ("C15", "a file present in the release before and in the one after was a 404 when the served link was re-pointed during its lookup"),
    "a null character in the path": ("C15", "a null character in the path of a static file was a server error"),
    "an empty text message": ("C17", "an empty text message reached on_receive of an endpoint without encoding as None"),
    "a websocket message of the wrong": ("C17", "a websocket message of the wrong kind raised TypeError or reached on_receive as None when the other key was present but None"),
    "bytes that are no UTF-8": ("C17", "bytes that are no UTF-8 raised UnicodeDecodeError in a json endpoint instead of closing the session with 1003"),
    "do not run a WSGI application": ("C24", "a WSGI application was run with the part of the body that came before the client disconnected"),
    "WSGI response headers are": ("C24", "a WSGI response header with a latin-1 character was a server error"),
    "test client accepts response headers": ("C25", "the test client raised UnicodeDecodeError for response headers that are not UTF-8"),
    "a Range header turned": ("C15", "a request with a Range header for a missing static file was answered 206 with a part of 404.html (a file response with a status other than 200 was cut as well)"),
    "a file response used again": ("C14", "a FileResponse object that answers several requests kept the Content-Range, Content-Length and file headers of an earlier one"),
    "test client returns the part": ("C25", "the test client lost the part of the body sent before the application failed"),
    "an exception raised again by its handler": ("C12", "an exception that its handler raised again was handed to the handler a second time (function endpoints)"),
    "close the iterable of a WSGI": ("C24", "close() of the iterable a WSGI application returned was never called"),
    "test client accepts denial": ("C25", "the test client raised KeyError for a denial response without headers or body keys"),
    "push promises and debug information get": ("C27", "gzip middleware dropped push promises and debug information"),
    "push promises get through dispatch": ("C27", "dispatch middleware dropped or failed on push promises"),
    "class-based endpoints and dispatch functions can make": ("C27", "send_push_promise raised RuntimeError in class-based endpoints and dispatch functions"),
    "the debug page shows errors": ("C11", "the debug page itself failed for an error whose text holds surrogates"),
    "the content length of a memoryview": ("C04", "the Content-Length of a memoryview of wider items counted items, not bytes"),
    "the test client takes an IPv6": ("C25", "the test client raised ValueError for a base URL with an IPv6 address"),
    "the test client passes on the bytes": ("C25", "the test client raised UnicodeEncodeError for request header values beyond ASCII"),
    "an exception handler does not break the protocol": ("C16", "an exception handler sent a close message on a websocket session that was already closed"),
    "an application that sends from a thread": ("C27", "an application that sends from a thread or a shielded scope waited for ever when its dispatch middleware ended without its response"),
    "dispatch middleware raises an exception group": ("C08", "an exception group of the application was raised as its only member by dispatch middleware"),
    "a streaming response raises an exception group": ("C09", "an exception group of the content was raised as its only member by a streaming response"),
    "an exception handler does not close a websocket session": ("C16", "an exception handler closed a websocket session whose sending had failed"),
    "the background tasks of a file response run": ("C13", "the background tasks of a FileResponse did not run when the range of the request was rejected"),
    "a template response does not change": ("C21", "a template context used for several requests kept the request of the first one, so that later pages showed its URL and data"),
    "gzip middleware accepts any iterable": ("C05", "gzip middleware lost the headers of an application that sends them as an iterator"),
}
path = f"{V}/known_findings.jsonl"
keep = [line for line in open(path) if json.loads(line)["status"] == "known"]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
out = []
for line in log:
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    hit = [v for k, v in PROP.items() if s[5:].startswith(k)]
    if not hit and s.startswith("fix: a multipart"):
        hit = [PROP["a multipart range response ends"]]
    if len(hit) != 1:
        raise SystemExit(f"no entry for {line}")
    p, what = hit[0]
    out.append(json.dumps({"status": "fixed", "property": p, "commit": h, "what": f"fixed: property={p} {h} {what}"}) + "\n")
open(path, "w").writelines(keep + out)
print(len(keep), "known", len(out), "fixed")
