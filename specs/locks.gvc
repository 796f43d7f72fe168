# ---- C12: lock discipline of the whole program ----
# (the guards of the engine's tables are declared next to their contracts)
guard socketio.Server.sockets by sockLock fixed
guard socketio.socket.acks by mutex
guard socketio.ackHandle.ackmap by mutex fixed
heldat[a session's transport is replaced only in an upgrade] "store engine.Socket.Conn" "engine.Barrier"
heldat[closed once] "close engine.emitter.done" "once:engine.Socket.once"
heldat[closed once] "close engine.Client.closeChan" "once:engine.Client.once"
heldat[closed once] "close engine.Server.done" "once:engine.Server.once"
# the session's barrier is a lock: Pause takes it, Resume releases it, Wait takes and releases it
spec "(*engine.lockBarrier).Pause" (b)
flag unbalanced
spec "(*engine.lockBarrier).Resume" (b)
flag unbalanced
