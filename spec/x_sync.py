from fe.spec import *
F = 'common/synchronization.cc'

def waitfn(name, wait, limit, inc):
    done = '!(cond < %s) || %s(__)' % (limit, wait)
    c = [BAL(), RETS('0', '%s(__)' % wait), RET('0', done if not inc else 'DID(count_ = _)'),
         RET('%s(__)' % wait, done if not inc else 'DID(count_ = _)'),
         LK('%s(__)' % wait, 'mutex_'), G('%s(__)' % wait, 'cond < %s' % limit), A('%s(__)' % wait, '%s(cond_, mutex_%s)' % (wait, ', __' if 'timed' in wait else ''))]
    if inc: c += [R(None, 'count_ = _'), A('count_ = _', 'count_ = count_ + 1'), LK('count_ = _', 'mutex_'), ONCE('count_ = _'), G('count_ = _', done),
                  N('count_ = _', unless='!DID(UNLOCK(mutex_))')]
    else: c += [N('count_ = _')]
    return Fn(F, 'BthreadCond::' + name, *c)

def delta(name, op, sig):
    c = [R(None, 'count_ = count_ %s 1' % op), A('count_ = _', 'count_ = count_ %s 1' % op), LK('count_ = _', 'mutex_'), BAL()]
    if sig: c += [R(None, sig), O('count_ = _', sig)]
    return Fn(F, 'BthreadCond::' + name, *c)

def guard(cls, lock, unlock):
    return [Fn(F, '%s::~%s' % (cls, cls), R('!is_release_', unlock), G(unlock, '!is_release_'), ONCE(unlock, most=True)),
            Fn(F, '%s::%s' % (cls, cls), R(None, lock), ONCE(lock))]

PROPS = {'X02': [
    waitfn('Wait', 'bthread_cond_wait', 'count_', False), waitfn('TimedWait', 'bthread_cond_timedwait', 'count_', False),
    waitfn('IncreaseWait', 'bthread_cond_wait', '(count_ + 1)', True), waitfn('IncreaseTimedWait', 'bthread_cond_timedwait', '(count_ + 1)', True),
    delta('Increase', '+', None), delta('DecreaseSignal', '-', 'ANY(bthread_cond_signal(cond_), bthread_cond_broadcast(cond_))'),
    delta('DecreaseBroadcast', '-', 'bthread_cond_broadcast(cond_)'),
    Fn(F, 'RWLock::CanRead', RET('true', '!active_writer_ && waiting_writers_ == 0', min=0),
       RET('!active_writer_', 'waiting_writers_ == 0', min=0), RETS('!active_writer_ && waiting_writers_ == 0', 'waiting_writers_ == 0 && !active_writer_', 'true', 'false')),
    Fn(F, 'RWLock::CanWrite', RETS('active_readers_ == 0 && !active_writer_', '!active_writer_ && active_readers_ == 0', 'true', 'false'),
       RET('true', '!active_writer_ && active_readers_ == 0', min=0)),
    Fn(F, 'RWLock::LockRead', G('active_readers_ = _', '!active_writer_ && waiting_writers_ == 0'), A('active_readers_ = _', 'active_readers_ = active_readers_ + 1'),
       R(None, 'active_readers_ = _'), ONCE('active_readers_ = _'), LK('active_readers_ = _', 'mutex_'), BAL(),
       LK('bthread_cond_wait(__)', 'mutex_'), A('bthread_cond_wait(__)', 'bthread_cond_wait(cond_, mutex_)'), inline=('CanRead',)),
    Fn(F, 'RWLock::LockWrite', G('active_writer_ = true', '!active_writer_ && active_readers_ == 0'), R(None, 'active_writer_ = true'),
       LK('active_writer_ = _', 'mutex_'), A('active_writer_ = _', 'active_writer_ = true'), BAL(),
       A('waiting_writers_ = _', ['waiting_writers_ = waiting_writers_ + 1', 'waiting_writers_ = _ - 1', 'waiting_writers_ = waiting_writers_']),
       LK('waiting_writers_ = _', 'mutex_'),
       G('bthread_cond_wait(__)', 'DID(waiting_writers_ = waiting_writers_ + 1)'), LK('bthread_cond_wait(__)', 'mutex_'),
       R(None, 'DID(waiting_writers_ = waiting_writers_ + 1) && DID(ANY(waiting_writers_ = _ - 1, waiting_writers_ = waiting_writers_))', name='writer count balanced'),
       inline=('CanWrite',)),
    Fn(F, 'RWLock::UnlockRead', R(None, 'active_readers_ = active_readers_ - 1'), A('active_readers_ = _', 'active_readers_ = active_readers_ - 1'),
       LK('active_readers_ = _', 'mutex_'), BAL(),
       R('active_readers_ - 1 == 0', 'bthread_cond_broadcast(cond_)'), O('active_readers_ = _', 'bthread_cond_broadcast(_)')),
    Fn(F, 'RWLock::UnlockWrite', R(None, 'active_writer_ = false'), LK('active_writer_ = _', 'mutex_'), A('active_writer_ = _', 'active_writer_ = false'), BAL(),
       R(None, 'bthread_cond_broadcast(cond_)'), O('active_writer_ = _', 'bthread_cond_broadcast(_)')),
    guard('RWLockReadGuard', 'rw_lock_.LockRead()', 'rw_lock_.UnlockRead()')[0], guard('RWLockWriteGuard', 'rw_lock_.LockWrite()', 'rw_lock_.UnlockWrite()')[0],
    Fn(F, 'RWLockReadGuard::RWLockReadGuard', ONCE('_.LockRead()'), R(None, 'rw_lock_ = rw_lock')),
    Fn(F, 'RWLockWriteGuard::RWLockWriteGuard', ONCE('_.LockWrite()'), R(None, 'rw_lock_ = rw_lock')),
    Fn(F, 'RWLockReadGuard::Release', R(None, 'is_release_ = true')), Fn(F, 'RWLockWriteGuard::Release', R(None, 'is_release_ = true')),
    Fn(F, 'ScopeGuard::~ScopeGuard', R('!is_release_', 'exit_func_()'), G('exit_func_()', '!is_release_'), ONCE('exit_func_()', most=True)),
    Fn(F, 'ScopeGuard::Release', R(None, 'is_release_ = true')),
    Fn('common/synchronization.h', 'ResourcePool::Get', G('pool_.pop()', '!pool_.empty()'), LK('pool_.pop()', 'mutex_'), R(None, 'pool_.pop()'), ONCE('pool_.pop()'),
       BAL(), RETS('pool_.front'), LK('bthread_cond_wait(__)', 'mutex_')),
    Fn('common/synchronization.h', 'ResourcePool::Put', LK('pool_.push(_)', 'mutex_'), R(None, 'pool_.push(item)'), R(None, 'ANY(bthread_cond_broadcast(cond_), bthread_cond_signal(cond_))'), BAL()),
    Fn('common/synchronization.h', 'BthreadSemaphore::Acquire', STOP('LOOP', ('break', 'ret'), '$b.compare_exchange_strong($c, $c - 1)', min=1),
       A('_.compare_exchange_strong(__)', '_.compare_exchange_strong($c, $c - 1)'), R(None, '_.compare_exchange_strong($c, _) && DID(_.compare_exchange_strong($c, _)) && !($c < 1)', name='semaphore taken'),
       G('_.compare_exchange_strong($c, _)', '!($c < 1)')),
    Fn('common/synchronization.h', 'BthreadSemaphore::Release', R(None, '_.fetch_add(value)'), O('_.fetch_add(_)', 'butex_wake(__)'), R(None, 'butex_wake(butex_, __)')),
]}
