X(el1)
X(el2)
X(gadd)
X(copy)
X(transpose)
X(copyp)
X(dot)
X(dotp)
X(norm)
X(selelem)
X(gop)
X(brdcst)
X(gemm)
X(matmulp)
X(diagop)
X(median)
X(scan)
X(enum)
X(lin)
X(stepmax)
X(stepbound)
X(binidx)
X(binidxall)
X(binsort)
X(binrange)
X(nanfill)
X(putall)
X(regtype)
X(deregtype)
X(create)
X(fake)
X(dup)
X(destroy)
X(destroyx)
X(dealloc)
X(realloc)
X(setprop)
X(unsetprop)
X(valid)
X(verify)
X(overlay)
X(setname)
X(getname)
X(inquire)
X(memory)
X(memlimit)
X(chaos)
X(chaosstat)
X(embed)
X(unembed)
X(sync)
X(gsync)
X(masksync)
X(usleep)
X(spin)
X(mpibar)
X(init)
X(dump)
X(ldump)
X(blkdump)
X(blkwrite)
X(segdump)
X(lwrite)
X(lread)
X(syn)
X(newprog)
X(put)
X(get)
X(acc)
X(sput)
X(sacc)
X(sget)
X(pput)
X(pacc)
X(pget)
X(fput)
X(fget)
X(nbput)
X(nbacc)
X(nbget)
X(nbwait)
X(nbtest)
X(gather)
X(scatter)
X(scatacc)
X(gsbuf)
X(gsfree)
X(readinc)
X(mutexes)
X(nomutexes)
X(lock)
X(unlock)
X(initfence)
X(fence)
X(lockrmw)
X(accn)
X(waitge)
X(dists)
X(locates)
X(locreg)
X(locnn)
X(locnb)
X(nblock)
X(topo)
X(blkinfo)
X(procgrid)
X(cmpdistr)
X(ids)
X(pgcreate)
X(pgdup)
X(pgself)
X(pgsplit)
X(pgsplitc)
X(pgdestroy)
X(pgdefault)
X(pginfo)
X(nodeids)
X(pgsync)
X(putone)
X(hasghosts)
X(ghfill)
X(ghdump)
X(ghelem)
X(gupd)
X(gdir)
X(gnbdir)
X(ggb)
X(gcorner)
X(dacc)
X(blkacc)
X(segacc)
X(drainit)
X(draterm)
X(dradefcfg)
X(dracreate)
X(draopen)
X(drainq)
X(drawhole)
X(drasec)
X(drawait)
X(draprobe)
X(draprobe1)
X(draflick)
X(draclose)
X(dradelete)
X(fexist)
X(eafopen)
X(eafio)
X(eafwait)
X(eaflen)
X(eaftrunc)
X(eafclose)
X(eafdelete)
X(eafstat)
X(sfcreate)
X(sfio)
X(sfwait)
X(sfctl)
X(session)
X(sesssel)
X(sessend)
X(spcreate)
X(spadd)
X(spasm)
X(spdist)
X(spview)
X(spaccess)
X(spblock)
X(spdestroy)
X(spdiag)
X(spcol)
X(splr)
X(spscale)
X(spshift)
X(spdup)
X(spmv)
X(spmm)
X(spsd)
X(spds)
X(spfd)
X(spfs)
X(spsketch)
X(spexport)
X(tcgsnd)
X(tcgrcv)
X(tcgwait)
X(tcgprobe)
X(tcgsync)
X(tcgbrd)
X(tcgop)
X(tcgnxt)
X(tcgnxt0)
X(tcgpf)
X(tcginfo)
X(tcgrnd)
