! A host in Fortran: one procedure for each group of functions of the module, called by the simulator (generated by tools/genf.py)
type(c_ptr) function fh_create(f, n) bind(c) result(rc)
  use, intrinsic :: iso_c_binding
  use moordyn
  implicit none
  integer(c_int), value :: n
  character(kind=c_char), intent(in) :: f(n)
  character(len=n) :: g
  integer :: i
  do i = 1, n
    g(i:i) = f(i)
  end do
  rc = MD_Create(g)
end function fh_create
integer(c_int) function fh_string(which, s, f, n) bind(c) result(rc)
  use, intrinsic :: iso_c_binding
  use moordyn
  implicit none
  integer(c_int), value :: which
  type(c_ptr), value :: s
  integer(c_int), value :: n
  character(kind=c_char), intent(in) :: f(n)
  character(len=n) :: g
  integer :: i
  do i = 1, n
    g(i:i) = f(i)
  end do
  rc = -999
  select case (which)
    case (0); rc = MD_SetLogFile(s, g)
    case (1); rc = MD_Save(s, g)
    case (2); rc = MD_Load(s, g)
    case (3); rc = MD_SaveVTK(s, g)
    case (4); rc = MD_SaveBodyVTK(s, g)
    case (5); rc = MD_UseBodyVTK(s, g)
    case (6); rc = MD_SaveRodVTK(s, g)
    case (7); rc = MD_SavePointVTK(s, g)
    case (8); rc = MD_SaveLineVTK(s, g)
  end select
end function fh_string
integer(c_int) function fh_log(s, l, f, n) bind(c) result(rc)
  use, intrinsic :: iso_c_binding
  use moordyn
  implicit none
  type(c_ptr), value :: s
  integer(c_int), value :: l, n
  character(kind=c_char), intent(in) :: f(n)
  character(len=n) :: g
  integer :: i
  do i = 1, n
    g(i:i) = f(i)
  end do
  rc = MD_Log(s, l, g)
end function fh_log
integer(c_int) function fh_int(which, s, r) bind(c) result(rc)
  use, intrinsic :: iso_c_binding
  use moordyn
  implicit none
  integer(c_int), value :: which
  type(c_ptr), value :: s
  integer(c_int), intent(out) :: r
  r = -12345
  rc = -999
  select case (which)
    case (0); rc = MD_NCoupledDOF(s, r)
    case (1); rc = MD_ExternalWaveKinInit(s, r)
    case (2); rc = MD_ExternalWaveKinGetN(s, r)
    case (3); rc = MD_GetNumberBodies(s, r)
    case (4); rc = MD_GetNumberRods(s, r)
    case (5); rc = MD_GetNumberPoints(s, r)
    case (6); rc = MD_GetNumberLines(s, r)
    case (7); rc = MD_GetBodyID(s, r)
    case (8); rc = MD_GetBodyType(s, r)
    case (9); rc = MD_GetRodID(s, r)
    case (10); rc = MD_GetRodType(s, r)
    case (11); rc = MD_GetRodN(s, r)
    case (12); rc = MD_GetRodNumberNodes(s, r)
    case (13); rc = MD_GetPointID(s, r)
    case (14); rc = MD_GetPointType(s, r)
    case (15); rc = MD_GetPointNAttached(s, r)
    case (16); rc = MD_GetLineID(s, r)
    case (17); rc = MD_GetLineN(s, r)
    case (18); rc = MD_GetLineNumberNodes(s, r)
    case (19); rc = MD_IsLineConstantEA(s, r)
    case (20); rc = MD_IsLinePressBend(s, r)
  end select
end function fh_int
integer(c_int) function fh_real(which, s, r) bind(c) result(rc)
  use, intrinsic :: iso_c_binding
  use moordyn
  implicit none
  integer(c_int), value :: which
  type(c_ptr), value :: s
  real(c_double), intent(out) :: r
  r = -12345
  rc = -999
  select case (which)
    case (0); rc = MD_GetAverageDepth(s, r)
    case (1); rc = MD_GetMinDepth(s, r)
    case (2); rc = MD_GetLineConstantEA(s, r)
    case (3); rc = MD_GetLineUnstretchedLength(s, r)
    case (4); rc = MD_GetLineFairTen(s, r)
    case (5); rc = MD_GetLineMaxTen(s, r)
  end select
end function fh_real
integer(c_int) function fh_vec(which, s, n, r) bind(c) result(rc)
  use, intrinsic :: iso_c_binding
  use moordyn
  implicit none
  integer(c_int), value :: which
  type(c_ptr), value :: s
  integer(c_int), value :: n
  real(c_double), intent(inout) :: r(n)
  rc = -999
  select case (which)
    case (0); rc = MD_ExternalWaveKinGetCoordinates(s, r)
    case (1); rc = MD_GetBodyPos(s, r)
    case (2); rc = MD_GetBodyAngle(s, r)
    case (3); rc = MD_GetBodyVel(s, r)
    case (4); rc = MD_GetBodyAngVel(s, r)
    case (5); rc = MD_GetBodyForce(s, r)
    case (6); rc = MD_GetBodyM(s, r)
    case (7); rc = MD_GetRodForce(s, r)
    case (8); rc = MD_GetRodM(s, r)
    case (9); rc = MD_GetPointPos(s, r)
    case (10); rc = MD_GetPointVel(s, r)
    case (11); rc = MD_GetPointForce(s, r)
    case (12); rc = MD_GetPointM(s, r)
    case (13); rc = MD_SetLinePressInt(s, r)
  end select
end function fh_vec
integer(c_int) function fh_node(which, s, i, n, r) bind(c) result(rc)
  use, intrinsic :: iso_c_binding
  use moordyn
  implicit none
  integer(c_int), value :: which
  type(c_ptr), value :: s
  integer(c_int), value :: i, n
  real(c_double), intent(inout) :: r(n)
  rc = -999
  select case (which)
    case (0); rc = MD_GetRodNodePos(s, i, r)
    case (1); rc = MD_GetRodNodeVel(s, i, r)
    case (2); rc = MD_GetLineNodePos(s, i, r)
    case (3); rc = MD_GetLineNodeVel(s, i, r)
    case (4); rc = MD_GetLineNodeForce(s, i, r)
    case (5); rc = MD_GetLineNodeTen(s, i, r)
    case (6); rc = MD_GetLineNodeBendStiff(s, i, r)
    case (7); rc = MD_GetLineNodeWeight(s, i, r)
    case (8); rc = MD_GetLineNodeDrag(s, i, r)
    case (9); rc = MD_GetLineNodeFroudeKrilov(s, i, r)
    case (10); rc = MD_GetLineNodeSeabedForce(s, i, r)
    case (11); rc = MD_GetLineNodeM(s, i, r)
  end select
end function fh_node
integer(c_int) function fh_set(which, s, v) bind(c) result(rc)
  use, intrinsic :: iso_c_binding
  use moordyn
  implicit none
  integer(c_int), value :: which
  type(c_ptr), value :: s
  real(c_double), intent(in) :: v
  rc = -999
  select case (which)
    case (0); rc = MD_SetLineUnstretchedLength(s, v)
    case (1); rc = MD_SetLineUnstretchedLengthVel(s, v)
    case (2); rc = MD_SetLineConstantEA(s, v)
  end select
end function fh_set
integer(c_int) function fh_iset(which, s, v) bind(c) result(rc)
  use, intrinsic :: iso_c_binding
  use moordyn
  implicit none
  integer(c_int), value :: which
  type(c_ptr), value :: s
  integer(c_int), value :: v
  rc = -999
  select case (which)
    case (0); rc = MD_SetLinePressBend(s, v)
    case (1); rc = MD_SetVerbosity(s, v)
    case (2); rc = MD_SetLogLevel(s, v)
  end select
end function fh_iset
type(c_ptr) function fh_obj(which, s, i) bind(c) result(rc)
  use, intrinsic :: iso_c_binding
  use moordyn
  implicit none
  integer(c_int), value :: which
  type(c_ptr), value :: s
  integer(c_int), value :: i
  rc = c_null_ptr
  select case (which)
    case (0); rc = MD_GetBody(s, i)
    case (1); rc = MD_GetRod(s, i)
    case (2); rc = MD_GetPoint(s, i)
    case (3); rc = MD_GetLine(s, i)
  end select
end function fh_obj
type(c_ptr) function fh_waves(s) bind(c) result(rc)
  use, intrinsic :: iso_c_binding
  use moordyn
  implicit none
  type(c_ptr), value :: s
  rc = MD_GetWaves(s)
end function fh_waves
type(c_ptr) function fh_floor(s) bind(c) result(rc)
  use, intrinsic :: iso_c_binding
  use moordyn
  implicit none
  type(c_ptr), value :: s
  rc = MD_GetSeafloor(s)
end function fh_floor
integer(c_int) function fh_close(s) bind(c) result(rc)
  use, intrinsic :: iso_c_binding
  use moordyn
  implicit none
  type(c_ptr), value :: s
  rc = MD_Close(s)
end function fh_close
integer(c_int) function fh_init(noic, s, n, x, xd) bind(c) result(rc)
  use, intrinsic :: iso_c_binding
  use moordyn
  implicit none
  integer(c_int), value :: noic, n
  type(c_ptr), value :: s
  real(c_double), intent(in) :: x(n), xd(n)
  if (noic /= 0) then
    rc = MD_Init_NoIC(s, x, xd)
  else
    rc = MD_Init(s, x, xd)
  end if
end function fh_init
integer(c_int) function fh_step(s, n, x, xd, f, t, dt) bind(c) result(rc)
  use, intrinsic :: iso_c_binding
  use moordyn
  implicit none
  type(c_ptr), value :: s
  integer(c_int), value :: n
  real(c_double), intent(in) :: x(n), xd(n)
  real(c_double), intent(inout) :: f(n), t, dt
  rc = MD_Step(s, x, xd, f, t, dt)
end function fh_step
integer(c_int) function fh_ext(s, n, u, ud, t) bind(c) result(rc)
  use, intrinsic :: iso_c_binding
  use moordyn
  implicit none
  type(c_ptr), value :: s
  integer(c_int), value :: n
  real(c_double), intent(in) :: u(n), ud(n)
  real(c_double), intent(in) :: t
  rc = MD_ExternalWaveKinSet(s, u, ud, t)
end function fh_ext
integer(c_int) function fh_fast(s, n, a, b, c, d) bind(c) result(rc)
  use, intrinsic :: iso_c_binding
  use moordyn
  implicit none
  type(c_ptr), value :: s
  integer(c_int), intent(inout) :: n
  real(c_double), intent(inout) :: a(n), b(n), c(n), d(n)
  rc = MD_GetFASTtens(s, n, a, b, c, d)
end function fh_fast
integer(c_int) function fh_attached(s, i, l, e) bind(c) result(rc)
  use, intrinsic :: iso_c_binding
  use moordyn
  implicit none
  type(c_ptr), value :: s
  integer(c_int), value :: i
  type(c_ptr), intent(out) :: l
  integer(c_int), intent(out) :: e
  rc = MD_GetPointAttached(s, i, l, e)
end function fh_attached
integer(c_int) function fh_state(s, r, rd) bind(c) result(rc)
  use, intrinsic :: iso_c_binding
  use moordyn
  implicit none
  type(c_ptr), value :: s
  real(c_double), intent(inout) :: r(6), rd(6)
  rc = MD_GetBodyState(s, r, rd)
end function fh_state
integer(c_int) function fh_curv(s, i, r) bind(c) result(rc)
  use, intrinsic :: iso_c_binding
  use moordyn
  implicit none
  type(c_ptr), value :: s
  integer(c_int), value :: i
  real(c_double), intent(out) :: r
  rc = MD_GetLineNodeCurv(s, i, r)
end function fh_curv
integer(c_int) function fh_depth(s, x, y, r) bind(c) result(rc)
  use, intrinsic :: iso_c_binding
  use moordyn
  implicit none
  type(c_ptr), value :: s
  real(c_double), value :: x, y
  real(c_double), intent(out) :: r
  rc = MD_GetDepthAt(s, x, y, r)
end function fh_depth
integer(c_int) function fh_kin(s, x, y, z, t, u, ud, zeta, p, fl) bind(c) result(rc)
  use, intrinsic :: iso_c_binding
  use moordyn
  implicit none
  type(c_ptr), value :: s
  real(c_double), value :: x, y, z, t
  real(c_double), intent(inout) :: u(3), ud(3)
  real(c_double), intent(out) :: zeta, p
  type(c_ptr), value :: fl
  rc = MD_GetWavesKin(s, x, y, z, t, u, ud, zeta, p, fl)
end function fh_kin
