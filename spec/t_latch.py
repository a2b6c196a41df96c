from fe.spec import *
F = 'common/latch.cc'
ACQ = {'H': 'ANY(lock.requiredHashes[LV(lock.ownedCount)], LV(lock.requiredHashes.begin + lock.ownedCount))',
       'F': '_.GetFirstReqByHash(_)', 'W': '_.WaitForWake(_, who)'}
REL = {'H': 'ELEM(lock.requiredHashes)', 'KE': 'ELEM(keep_latches_for_next_cmd.value.second.requiredHashes)',
       'KEEP': '(_ == ELEM(lock.requiredHashes) && keep_latches_for_next_cmd)'}
FIRST = 'ELEM(waiting).first'
PROPS = {'X01': [
    Fn(F, 'Latches::Acquire',
       A('_.WaitForWake(__)', 'GetSlot(@H).latch.WaitForWake(@H, who)'),
       A('_.GetFirstReqByHash(__)', 'GetSlot(@H).latch.GetFirstReqByHash(@H)'),
       G('_.WaitForWake(__)', '!@F || !(@F == who)'),
       LK('_.WaitForWake($h, _)', 'GetSlot($h).mutex'),
       LK('_.GetFirstReqByHash($h)', 'GetSlot($h).mutex'),
       BAL(),
       RI('lock.requiredHashes', None, '(@F == who && !DID(@W)) || (!@F && DID(@W))', name='counted'),
       RI('lock.requiredHashes', None, 'DID(LSET(_ + 1)) || DID(lock.ownedCount = _ + 1)', name='count'),
       RI('lock.requiredHashes', None, '@F && !(@F == who) && DID(@W) && !DID(LSET(_ + 1))', how=('break',), name='stop at the first held key'),
       A('lock.ownedCount = _', ['lock.ownedCount = lock.ownedCount + _', 'lock.ownedCount = LV(_) + 1']),
       R(None, 'lock.ownedCount = _'),
       RETS('lock.Acquired', 'lock.requiredHashes.size == _'),
       m=ACQ, keys=('ownedCount',)),
    Fn(F, 'Latches::Release',
       A('_.PopFront(__)', 'GetSlot(@H).latch.PopFront(@H)'),
       LK('_.PopFront($h)', 'GetSlot($h).mutex'), LK('_.GetFirstReqByHash($h)', 'GetSlot($h).mutex'), LK('_.PushPreemptive($h, _)', 'GetSlot($h).mutex'),
       BAL(),
       RI('lock.requiredHashes', None, '_.PopFront(@H)'),
       G('_.push_back($w)', '$w'), A('_.push_back($w)', '_.push_back(ANY(GetSlot(@H).latch.GetFirstReqByHash(@H), GetSlot(@H).latch.GetFirstReqByHash(@H).value))'),
       G('_.GetFirstReqByHash(_)', 'DID(_.PopFront(_))'),
       G('_.PushPreemptive(__)', '@KEEP && DID(_.PopFront(_))'),
       A('_.PushPreemptive(__)', 'GetSlot(@H).latch.PushPreemptive(@H, ANY(keep_latches_for_next_cmd.value.first, keep_latches_for_next_cmd.first))'),
       RI('lock.requiredHashes', None, 'DID(_.PushPreemptive(__)) || DID(_.push_back(_)) || !_.GetFirstReqByHash(@H)', name='next waiter woken'),
       RI('lock.requiredHashes', None, '!DID(_.PushPreemptive(__)) || DID(LSET(ANY(@KE, @KE + 1)))', name='next key of the request that takes over'),
       STOP('lock.requiredHashes', ('break', 'ret'), 'false', min=0),
       RETS('OBJ(vector)'),
       m=REL),
    Fn(F, 'Latch::GetFirstReqByHash',
       RET('ELEM(waiting).second', '%s == hash' % FIRST), RETS('ELEM(waiting).second', 'nullopt'),
       STOP('waiting', ('break',), '%s == hash' % FIRST, min=0),
       RI('waiting', None, '!(%s == hash)' % FIRST, name='first match wins')),
    Fn(F, 'Latch::PopFront',
       G('waiting.pop_front()', 'waiting.front.first == key_hash && !waiting.empty()', min=0),
       G('waiting.erase(_)', '%s == key_hash' % FIRST), A('waiting.erase(_)', 'waiting.erase(ELEM(waiting))'),
       RET('waiting.front', 'DID(waiting.pop_front())', min=0), RET('ELEM(waiting)', 'DID(waiting.erase(ELEM(waiting)))'),
       RETS('waiting.front', 'ELEM(waiting)', 'nullopt'),
       RI('waiting', None, '!(%s == key_hash)' % FIRST),
       ONCE('ANY(waiting.pop_front(), waiting.erase(_))', most=True)),
    Fn(F, 'Latch::WaitForWake', R(None, 'waiting.push_back(INIT(key_hash, cid))'), ONCE('waiting.push_back(_)'), A('waiting._(__)', 'waiting.push_back(_)')),
    Fn(F, 'Latch::PushPreemptive', R(None, 'waiting.push_front(INIT(key_hash, cid))'), ONCE('waiting.push_front(_)'), A('waiting._(__)', 'waiting.push_front(_)')),
    Fn(F, 'Latch::MaybeShrink', *[A('waiting.%s(__)' % m, [], min=0) for m in ('erase', 'clear', 'pop_front', 'pop_back', 'resize', 'push_back', 'push_front', 'swap')]),
    Fn(F, 'Lock::Lock', RI('keys', None, 'requiredHashes.push_back(Hash(ELEM(keys)))'),
       R(None, 'sort(requiredHashes.begin, requiredHashes.end)'), O('sort(__)', 'unique(requiredHashes.begin, requiredHashes.end)'),
       R(None, 'requiredHashes.erase(unique(requiredHashes.begin, requiredHashes.end), requiredHashes.end)')),
    Fn(F, 'Latches::GetSlot', RETS('slots_ptr[(slots_size - 1) & hash]', 'slots_ptr[hash % slots_size]')),
    Fn(F, 'Lock::Acquired', RETS('requiredHashes.size() == ownedCount')),
]}
