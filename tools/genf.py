ints=["NCoupledDOF","ExternalWaveKinInit","ExternalWaveKinGetN","GetNumberBodies","GetNumberRods","GetNumberPoints","GetNumberLines","GetBodyID","GetBodyType","GetRodID","GetRodType","GetRodN","GetRodNumberNodes","GetPointID","GetPointType","GetPointNAttached","GetLineID","GetLineN","GetLineNumberNodes","IsLineConstantEA","IsLinePressBend"]
reals=["GetAverageDepth","GetMinDepth","GetLineConstantEA","GetLineUnstretchedLength","GetLineFairTen","GetLineMaxTen"]
vecs=["ExternalWaveKinGetCoordinates","GetBodyPos","GetBodyAngle","GetBodyVel","GetBodyAngVel","GetBodyForce","GetBodyM","GetRodForce","GetRodM","GetPointPos","GetPointVel","GetPointForce","GetPointM","SetLinePressInt"]
nodes=["GetRodNodePos","GetRodNodeVel","GetLineNodePos","GetLineNodeVel","GetLineNodeForce","GetLineNodeTen","GetLineNodeBendStiff","GetLineNodeWeight","GetLineNodeDrag","GetLineNodeFroudeKrilov","GetLineNodeSeabedForce","GetLineNodeM"]
strs=["SetLogFile","Save","Load","SaveVTK","SaveBodyVTK","UseBodyVTK","SaveRodVTK","SavePointVTK","SaveLineVTK"]
sets=["SetLineUnstretchedLength","SetLineUnstretchedLengthVel","SetLineConstantEA"]
isets=["SetLinePressBend","SetVerbosity","SetLogLevel"]
objs=["GetBody","GetRod","GetPoint","GetLine"]
o=[]
w=o.append
w("! A host in Fortran: one procedure for each group of functions of the module, called by the simulator (generated by tools/genf.py)")
def fn(name,args,decl,body,res="integer(c_int)"):
    w(f"{res} function fh_{name}({args}) bind(c) result(rc)")
    w("  use, intrinsic :: iso_c_binding"); w("  use moordyn"); w("  implicit none")
    for d in decl: w("  "+d)
    for b in body: w("  "+b)
    w(f"end function fh_{name}")
W=["integer(c_int), value :: which","type(c_ptr), value :: s"]
def sel(names,call): return ["rc = -999","select case (which)"]+[f"  case ({i}); rc = MD_{n}({call})" for i,n in enumerate(names)]+["end select"]
fn("create","f, n",["integer(c_int), value :: n","character(kind=c_char), intent(in) :: f(n)","character(len=n) :: g","integer :: i"],["do i = 1, n","  g(i:i) = f(i)","end do","rc = MD_Create(g)"],"type(c_ptr)")
fn("string","which, s, f, n",W+["integer(c_int), value :: n","character(kind=c_char), intent(in) :: f(n)","character(len=n) :: g","integer :: i"],["do i = 1, n","  g(i:i) = f(i)","end do"]+sel(strs,"s, g"))
fn("log","s, l, f, n",W[1:]+["integer(c_int), value :: l, n","character(kind=c_char), intent(in) :: f(n)","character(len=n) :: g","integer :: i"],["do i = 1, n","  g(i:i) = f(i)","end do","rc = MD_Log(s, l, g)"])
fn("int","which, s, r",W+["integer(c_int), intent(out) :: r"],["r = -12345"]+sel(ints,"s, r"))
fn("real","which, s, r",W+["real(c_double), intent(out) :: r"],["r = -12345"]+sel(reals,"s, r"))
fn("vec","which, s, n, r",W+["integer(c_int), value :: n","real(c_double), intent(inout) :: r(n)"],sel(vecs,"s, r"))
fn("node","which, s, i, n, r",W+["integer(c_int), value :: i, n","real(c_double), intent(inout) :: r(n)"],sel(nodes,"s, i, r"))
fn("set","which, s, v",W+["real(c_double), intent(in) :: v"],sel(sets,"s, v"))
fn("iset","which, s, v",W+["integer(c_int), value :: v"],sel(isets,"s, v"))
fn("obj","which, s, i",W+["integer(c_int), value :: i"],["rc = c_null_ptr","select case (which)"]+[f"  case ({i}); rc = MD_{n}(s, i)" for i,n in enumerate(objs)]+["end select"],"type(c_ptr)")
fn("waves","s",W[1:],["rc = MD_GetWaves(s)"],"type(c_ptr)")
fn("floor","s",W[1:],["rc = MD_GetSeafloor(s)"],"type(c_ptr)")
fn("close","s",W[1:],["rc = MD_Close(s)"])
fn("init","noic, s, n, x, xd",["integer(c_int), value :: noic, n","type(c_ptr), value :: s","real(c_double), intent(in) :: x(n), xd(n)"],["if (noic /= 0) then","  rc = MD_Init_NoIC(s, x, xd)","else","  rc = MD_Init(s, x, xd)","end if"])
fn("step","s, n, x, xd, f, t, dt",W[1:]+["integer(c_int), value :: n","real(c_double), intent(in) :: x(n), xd(n)","real(c_double), intent(inout) :: f(n), t, dt"],["rc = MD_Step(s, x, xd, f, t, dt)"])
fn("ext","s, n, u, ud, t",W[1:]+["integer(c_int), value :: n","real(c_double), intent(in) :: u(n), ud(n)","real(c_double), intent(in) :: t"],["rc = MD_ExternalWaveKinSet(s, u, ud, t)"])
fn("fast","s, n, a, b, c, d",W[1:]+["integer(c_int), intent(inout) :: n","real(c_double), intent(inout) :: a(n), b(n), c(n), d(n)"],["rc = MD_GetFASTtens(s, n, a, b, c, d)"])
fn("attached","s, i, l, e",W[1:]+["integer(c_int), value :: i","type(c_ptr), intent(out) :: l","integer(c_int), intent(out) :: e"],["rc = MD_GetPointAttached(s, i, l, e)"])
fn("state","s, r, rd",W[1:]+["real(c_double), intent(inout) :: r(6), rd(6)"],["rc = MD_GetBodyState(s, r, rd)"])
fn("curv","s, i, r",W[1:]+["integer(c_int), value :: i","real(c_double), intent(out) :: r"],["rc = MD_GetLineNodeCurv(s, i, r)"])
fn("depth","s, x, y, r",W[1:]+["real(c_double), value :: x, y","real(c_double), intent(out) :: r"],["rc = MD_GetDepthAt(s, x, y, r)"])
fn("kin","s, x, y, z, t, u, ud, zeta, p, fl",W[1:]+["real(c_double), value :: x, y, z, t","real(c_double), intent(inout) :: u(3), ud(3)","real(c_double), intent(out) :: zeta, p","type(c_ptr), value :: fl"],["rc = MD_GetWavesKin(s, x, y, z, t, u, ud, zeta, p, fl)"])
import os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(here+"/sim/fhost.f90","w").write("\n".join(o)+"\n")
h=["// the names of the groups of functions of sim/fhost.f90 (generated by tools/genf.py)"]
for g,l in (("I",ints),("R",reals),("V",vecs),("N",nodes),("T",strs),("S",sets),("J",isets),("O",objs)):
    h.append(f"enum {{ "+", ".join(f"F{g}_{x}" for x in l)+" };")
open(here+"/sim/fhost.hpp","w").write("\n".join(h)+"\n")
