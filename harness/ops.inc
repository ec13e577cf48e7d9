OP(init) OP(enter) OP(leave) OP(return_) OP(end) OP(throw_) OP(new_) OP(res) OP(push) OP(pusht) OP(get) OP(mnew) OP(masg) OP(destroy)
OP(begin) OP(deref) OP(inc) OP(oasg) OP(yield) OP(yieldt) OP(next) OP(ownget) OP(omove) OP(wbegin) OP(wderef) OP(winc) OP(wasg) OP(each) OP(weach) OP(goon) OP(brk) OP(apush) OP(ayield) OP(cont) OP(rethrow) OP(handle) OP(reraise)
OP(start) OP(ret) OP(exc) OP(catch_) OP(hdbeg) OP(gd) OP(fdel) OP(fin) OP(dtor) OP(item)
