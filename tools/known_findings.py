import json,subprocess
P={"284ca69":"C10","c86556b":"C28","9429f98":"C04","eaeb3c9":"C02","3c61a6f":"C21","4b65382":"C26","5a6ac5b":"C24","f3b6c78":"C24","088a633":"C20","063687b":"C20","c6ec788":"C24","19ab497":"C24","fc1825d":"C24","9016cad":"C24","da4fed7":"C24","62f89c6":"C24","5381b0e":"C24","96555f9":"C24","ff18c9f":"C24","37830dd":"C24","01f48c1":"C23","44d5313":"C23","1a42907":"C23","433355b":"C23","86a7d43":"C23","10a43e5":"C23","2896150":"C23","3675cfa":"C23","7b737fd":"C22","ea5e00c":"C22","3267d66":"C22","d3a2a79":"C22","72a1d95":"C22","ace6610":"C22","8f326d5":"C09","3e18c2f":"C21","57150e8":"C21","096dd0b":"C21","21f5c16":"C26","f4bd7ca":"C20","4a4f357":"C25","fa9271d":"C06","7a49fad":"C26","3c0b4bf":"C21","e505696":"C07","7186cd6":"C07","695801b":"C04","071ea6c":"C17","ef246d1":"C17","dc21043":"C15","1401a9d":"C02","866ceca":"C17","a9c78af":"C24","6b41187":"C14","6ba1206":"C23","06fecf6":"C23","84f157d":"C23","83417aa":"C23","ef57008":"C05","741d7c1":"C05","8e82c48":"C23","4067ec6":"C13","f49e72c":"C17","a6e03d5":"C16","90403ba":"C12","4d1e8a1":"C10","986b3e2":"C12","976463b":"C12","ead3e71":"C12","c0f5a21":"C09","8b700a6":"C21","8d38522":"C21","ed54917":"C20","7eb26a4":"C09","cb483cc":"C26","46e135d":"C26","3c8d204":"C08","8a783e2":"C08","edc0739":"C08","9cec486":"C07","289052d":"C08","6f6f25d":"C20","c210a3c":"C13","1ae9602":"C13","6649288":"C12","7978e45":"C13","c6fa0db":"C15","86f3956":"C16","fab40bd":"C17","f421724":"C17","d1a9831":"C18","b6d4722":"C18","fd1ada4":"C19","7407984":"C19","111bff0":"C18"}
W={"284ca69":'a synchronous command with several handlers could return the result of one with the message of another',
'c86556b':'a stop right after the start of an event loop or websocket daemon broke its initialization off, and that of the next start',
"9429f98":"concurrent changes of one channel gave events that don't follow each other, and increments were lost",
"eaeb3c9":"an environment's data frames with a stream channel were rejected by its own decoder, other channels' data included",
"3c61a6f":'a daemon or stream writer could not be made with an environment without metrics',
"4b65382":'UdpClientManager.remove_client(id) with an id of another stream of the same writer removed that stream',
"5a6ac5b":'a websocket telemetry client with a backlog of frames never let the event loop run: other clients starved and stop_all() failed by assertion or never returned',
"f3b6c78":"stop_all() never returned while a connected telemetry client didn't read",
"088a633":'a telemetry daemon could not be stopped while the frame queue was full and nobody consumed frames',
"063687b":'dispatch() kept the environment locked while it waited for space in the frame queue: nobody could use the environment, and the writer that had to make space could not either (deadlock)',
"c6ec788":"one websocket client's slow command kept all other websocket clients waiting",
"19ab497":"a websocket message that isn't valid utf-8, is nested too deeply or isn't a json object ended the client's connection without an answer",
"fc1825d":'a second stop_all() or await_shutdown() returned while the server was still stopping',
"9016cad":'ports of the tcp and websocket services stayed open after stop_all(), clients could connect to nobody',
"da4fed7":"a websocket daemon's client connected to port 0 when the daemon was bound to any port",
"62f89c6":'the tcp telemetry service was not listed in the service registry',
"5381b0e":"register_application() with the name of an existing daemon reset that daemon's state and metrics channels although it was refused",
"96555f9":'stop_all() failed by assertion when any daemon was paused, everything stayed running',
"ff18c9f":'scale_speed() failed by assertion when a daemon was paused or already stopped, and left paused daemons running',
"37830dd":'await_shutdown() waited forever when the server was stopped by somebody else before it started waiting, when there was no http service, and for all but one of several waits',
"01f48c1":"a TLS client that doesn't finish its handshake kept all others waiting",
"44d5313":"TLS clients weren't served after a restart of the daemon",
"1a42907":"a handler whose description isn't latin-1 got no response",
"433355b":'multipart parts lost line ends, blank values or were split at boundary-like text',
"86a7d43":"content types in other cases weren't recognised",
"10a43e5":'posts with a negative, malformed or unreached length were hung on or misread',
"2896150":'url-encoded fields without a value were dropped',
"3675cfa":'bytes followed the body of an error response',
"7b737fd":'a websocket client stopped mid-frame was garbled after it connected again',
"ea5e00c":'a tcp client that connected while the server stopped was served on',
"3267d66":'a websocket telemetry server served one client at a time, blocking its event loop for it, and dropped clients after two seconds without frames',
"d3a2a79":"stopping an idle event loop daemon (a websocket client or server) took up to its whole grace time, as the loop wasn't woken to cancel its tasks",
"72a1d95":"a datagram that isn't whole frames garbled all later ones",
"ace6610":'stopping a socket client could put the end marker before the last frames; a stream ended by the server had none, left its socket open and kept the client from reconnecting; a client stopped mid-frame was garbled after the restart; stopping could raise',
"8f326d5":"a stream closed elsewhere (a socket's file, whose name raises ValueError once it's closed) killed the writer's thread when its failure was logged",
"3e18c2f":'a put refused for its negative time-out still counted as enqueued',
"57150e8":'two threads registering the same metric at once made one of them fail',
"096dd0b":'a stream that failed while it was added made its count negative, which killed the writer',
"21f5c16":'adding a udp client raised when its stream failed at once',
"f4bd7ca":'a removed queue that was full blocked the writer, and with it everything, forever',
"fd1ada4":"reading a group raised while a channel was added to it",
"7407984":"a write with an unknown channel or member wrote part of a group",
"111bff0":"validating an object again ignored the schema manager it was given",
"d1a9831":"loaded objects were not validated by the loader's schema manager",
"b6d4722":"enum members of several words (as in the package's own message_type) were invalid by schema",
"f421724":"an initial enum with a primitive type's name was accepted and kept later enums out of the types",
"86f3956":"a channel-group registry with groups could not be described, so listing the registries failed",
"fab40bd":"an enum channel without an initial value held 0 even if no member has that value, and one whose initial value is no byte was half-registered",
"c6fa0db":"an iteration could run with the data given to a concurrent one",
"7978e45":"the daemon command on 'all' ignored dependencies",
"1ae9602":"performing the operation 'none' raised KeyError instead of failing",
"6649288":"concurrent state changes were reported out of order",
"c210a3c":"a chain of 20 or more dependent daemons made perform_all raise RecursionError",
"4a4f357":"with a frame limit, FileClient stopped at the first read with decodable frames missing behind undecodable ones",
"fa9271d":"bytes supplied after an unreasonable length were discarded too",
"7a49fad":"udp add without host or port raised or added a client",
"3c0b4bf":"a put that a full queue refused still counted as enqueued",
"e505696":"message-field values beyond their type's range were sent as zero",
"7186cd6":"the 65537th message of a type could not be numbered",
"695801b":"a refused duplicate channel left a change event of the other channel",
"071ea6c":"an enum with a type's name was half-registered",
"ef246d1":"a refused enum channel stayed registered as a plain channel",
"dc21043":"concurrent state-machine iterations interleaved",
"1401a9d":"decode_frame raised on malformed bytes and ignored some checksums",
"866ceca":"enum registry load refused valid and accepted duplicate definitions",
"a9c78af":"a server without ws-cmd could not be constructed",
"6b41187":"sleeping raised ZeroDivisionError at time scale zero",
"6ba1206":"malformed POST bodies or headers got no response",
"06fecf6":"Content-Length counted characters, not bytes",
"84f157d":"handler text with line breaks or non-latin characters broke the status line",
"83417aa":"a raising http handler got no response",
"741d7c1":"a FLOAT channel still accepted them: native packing does not check",
"ef57008":"a FLOAT channel accepted doubles that cannot be packed, failing dispatch",
"8e82c48":"requesting an unknown path made the index list it",
"4067ec6":"unknown daemon or enum-channel lookups created entries",
"f49e72c":"an unknown enum lookup added a value",
"a6e03d5":"unknown registry lookups added entries",
"90403ba":"stop could join another instance's thread",
"4d1e8a1":"a raising command handler, or a non-string command, killed the command daemon",
"986b3e2":"stop forgot the thread of a concurrently restarted daemon",
"976463b":"start returned before the daemon ran, so an immediate stop or pause was refused",
"ead3e71":"concurrent state changes were published out of order",
"c0f5a21":"an incomplete stream write raised in the writer thread and killed it",
"8b700a6":"concurrent daemon metric updates were published out of order",
"8d38522":"concurrent metric_add calls lost updates",
"ed54917":"bytes_written was registered lazily under the writer's lock, deadlocking with a dispatch",
"7eb26a4":"a closed or concurrently removed stream killed the writer",
"cb483cc":"a udp client whose flush failed was never closed",
"46e135d":"an error of a non-udp stream raised KeyError in the writer",
"3c8d204":"a temporary cache left fragments behind",
"8a783e2":"cleaning a cache a second time raised",
"edc0739":"a cleaned cache raised on the next ingest and kept files",
"9cec486":"messages completed by fragment count (duplicates counted) and without checksum match",
"289052d":"reopening a cache with several messages of one type lost fragments",
"6f6f25d":"an exception in a locked context left the lock held forever"}
log=subprocess.check_output(['git','-C','/repo','log','--format=%h','--reverse','34cbe6b..HEAD'],text=True).split()
assert set(log)==set(P)==set(W),(set(log)^set(P),set(P)^set(W))
json.dump({"findings":[],"fixed":[f"fixed: property={P[h]} {h} {W[h]}" for h in log]},open('KNOWN_FINDINGS.json','w'),indent=1)
