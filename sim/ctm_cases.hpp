// Written by tools/ctm_gen.py 11 8 240: compile-time manipulations and what they denote. Q(use, whether the result is expanded, prefix form, call)
#if CTM_SLICE == 1
#define CTM_CASES(Q) \
  Q(1, 0, "0", vm::diff((((Y / K<6L>()) * (Y - Z)) * (K<0L>() / (K<-1L>() * Z))), Z)) \
  Q(0, 0, "0", vm::coefficient(W, (K<0L>() - K<3L>()))) \
  Q(1, 0, "* x * y / 1 z", vm::simplify(((X * Y) / Z))) \
  Q(4, 0, "+ * -2 x + * / -1 4 * x * x x * / 9 4 * x x", vm::integrate(vm::make_interval((X * X), X), (K<-2L>() + (X / K<4L>())), Y)) \
  Q(4, 0, "* / -1 2 * x y", vm::simplify(((Y * X) / K<-2L>()))) \
  Q(3, 0, "+ 96 + z * / -5 2 * z z", vm::integrate(vm::make_interval((K<0L>() - Z), K<6L>()), (K<1L>() + (K<5L>() * Y)), Y)) \
  Q(2, 0, "+ 1 * 3 z", vm::expand(((Z - K<-1L>()) + (Z + Z)))) \
  Q(3, 0, "0", vm::eval((((X * K<-10L>()) * K<0L>()) / ((X + X) * X)), vm::make_vector(K<65536L>()))) \
  Q(3, 1, "+ * x + x z * 2 * x + -3 * -1 x", vm::expand((((K<-3L>() - X) * (K<2L>() * X)) + ((K<1L>() * X) * (X + Z))))) \
  Q(0, 0, "-9", vm::eval(((Y * K<-1L>()) / (Y / K<9L>())), vm::make_vector(K<0L>(), K<-4L>()))) \
  Q(1, 0, "+ 4 * 2 x", vm::substitute(U, K<2L>(), ((U - K<-2L>()) + (X + X)))) \
  Q(2, 0, "+ -14 y", vm::substitute(X, Y, vm::simplify((Y - ((K<-10L>() * K<-2L>()) - K<6L>()))))) \
  Q(0, 0, "0", vm::coefficient(Y, (X - Z))) \
  Q(1, 0, "* + y * -1 x + z * -1 x", vm::simplify(((Y - X) * (Z - X)))) \
  Q(0, 0, "+ * -2 y * 2 * x y", vm::integrate(vm::make_interval(X, K<1L>()), (Y * K<-2L>()), W)) \
  Q(1, 0, "+ * / 1 2 x * x y", vm::simplify(((X / K<2L>()) + (Y * X)))) \
  Q(2, 0, "+ * -1 * * x x / 1 + -2 x * x * y / 1 + -2 x", vm::integrate(vm::make_interval(X, Y), (X / (X - K<2L>())), Z)) \
  Q(0, 0, "+ 1 * -1 x", vm::expand((K<1L>() - X))) \
  Q(0, 0, "/ -14 3", vm::eval(((K<2L>() / K<-3L>()) - (K<7L>() - K<3L>())), vm::make_vector(K<0L>(), K<2L>()))) \
  Q(1, 0, "+ x * 9 y", vm::substitute(K<-2L>(), (Y * K<9L>()), (K<-2L>() + X))) \
  Q(1, 0, "0", vm::diff((K<3L>() / X), Z)) \
  Q(1, 0, "0", vm::coefficient(Z, (K<-4L>() / (Y + K<12L>())))) \
  Q(1, 0, "+ * / 2 3 z * / 4 3 x", vm::diff((((X + Z) * (X + X)) / K<3L>()), X)) \
  Q(4, 0, "* 3 / 1 * x x", vm::drop_dependent_terms(Y, ((K<3L>() / X) / X))) \
  Q(0, 0, "+ 12 * / -3 4 z", vm::simplify(((Z / K<4L>()) + (K<12L>() - Z)))) \
  Q(3, 0, "+ * -72 y + * -12 * y * y y + * z * y * y y * / 1 2 * y * z z", vm::integrate(vm::make_interval(K<12L>(), Z), (Y * ((Y * Y) + (X / K<1L>()))), X)) \
  Q(3, 0, "-15", vm::simplify((K<-2L>() * ((K<6L>() + K<9L>()) / K<2L>())))) \
  Q(3, 0, "-18", vm::integrate(vm::make_interval(K<4L>(), K<7L>()), (K<-3L>() * K<2L>()), X)) \
  Q(3, 0, "+ -1 + x y", vm::expand(((Y + X) - K<1L>()))) \
  Q(0, 0, "/ -7 4", vm::eval((((Y + X) * (K<0L>() + Y)) / ((K<12L>() * K<1L>()) / (X / K<2L>()))), vm::make_vector(K<7L>(), K<-1L>()))) \
  Q(4, 1, "+ y + * -1 z * -1 * x z", vm::expand(((Y - Z) - (X * Z)))) \
  Q(3, 0, "-12", vm::eval(((K<-3L>() - X) * (X + K<-1L>())), vm::make_vector(K<3L>(), K<7L>()))) \
  Q(0, 0, "+ 1 + x * / 1 5 * y z", vm::substitute(Z, ((Y * Z) * (K<-2L>() / K<-10L>())), ((K<1L>() + Z) + X))) \
  Q(0, 0, "y", vm::simplify(vm::simplify((Y * K<1L>())))) \
  Q(0, 0, "* / 1 10 x", vm::substitute(Y, Z, ((X / K<5L>()) / K<2L>()))) \
  Q(0, 0, "0", vm::diff((X + (K<-4L>() / Y)), Z)) \
  Q(4, 0, "1", vm::coefficient(Z, (K<3L>() + Z))) \
  Q(0, 0, "0", vm::diff((K<9L>() * X), Y)) \
  Q(1, 0, "* -1 * x z", vm::drop_dependent_terms(Y, ((Y - Z) * (X - Y)))) \
  Q(4, 0, "2", vm::simplify((X - (X - K<2L>())))) \
  Q(2, 0, "+ 12 + * -7 z + * 4 x + * / -5 2 * z z * x z", vm::integrate(vm::make_interval(K<-4L>(), Z), (((Z * K<-2L>()) + (Y - K<-1L>())) + (X - (Z + K<-4L>()))), Y)) \
  Q(1, 0, "* -1 / 1 z", vm::simplify((K<-1L>() / Z))) \
  Q(0, 0, "* / 1 2 x", vm::integrate(vm::make_interval((K<1L>() + Z), Z), ((X / K<4L>()) * K<-2L>()), Y)) \
  Q(1, 1, "+ -1 * 9 z", vm::expand((K<-2L>() - ((Z - K<1L>()) + (K<-10L>() * Z))))) \
  Q(2, 0, "/ -25 6", vm::eval((K<-3L>() - ((X / K<3L>()) / (K<6L>() + K<-4L>()))), vm::make_vector(K<7L>(), K<1L>()))) \
  Q(1, 0, "* 2 * x + x y", vm::substitute(W, (X + W), ((Y + X) * (X + X)))) \
  Q(1, 0, "-12", vm::expand(vm::substitute(X, (X + Y), (K<12L>() / K<-1L>())))) \
  Q(1, 0, "2", vm::substitute(((K<3L>() / X) - (X * X)), K<2L>(), ((K<3L>() / X) - (X * X)))) \
  Q(1, 0, "0", vm::diff(Z, X)) \
  Q(1, 0, "* -2 y", vm::drop_dependent_terms(X, (Y * ((X - K<4L>()) / K<2L>())))) \
  Q(0, 0, "+ -2 * 3 / 1 x", vm::simplify(((K<3L>() / X) + K<-2L>()))) \
  Q(1, 0, "0", vm::integrate(vm::make_interval(Y, Y), (((Z * K<-4L>()) / K<-2L>()) - (Y + K<4L>())), Z)) \
  Q(1, 1, "* 9 y", vm::expand(((K<7L>() - K<-2L>()) * Y))) \
  Q(0, 0, "9", vm::eval((X * K<9L>()), vm::make_vector(K<1L>(), K<5L>()))) \
  Q(3, 0, "x", vm::coefficient(U, (((K<-1L>() - Y) - (Z / Y)) - ((Z * Z) - (X * U))))) \
  Q(3, 0, "+ / -4 7 * / 1 7 x", vm::simplify((((K<3L>() * K<-1L>()) - (K<1L>() - X)) / K<7L>()))) \
  Q(1, 0, "+ * 9 / 1 x * / -3 4 x", vm::integrate(vm::make_interval((K<12L>() + K<-4L>()), K<5L>()), ((X / K<4L>()) - (K<3L>() / X)), Z)) \
  Q(4, 0, "+ z + * -1 x * 8 y", vm::simplify(((((K<6L>() + Y) / K<1L>()) - K<6L>()) + (((Y + Y) - (X - Z)) - ((K<5L>() / K<1L>()) * (Y / K<-1L>())))))) \
  Q(0, 0, "0", vm::integrate(vm::make_interval(Z, Z), (K<-2L>() + K<-1L>()), X)) \
  Q(4, 0, "* z z", vm::expand((Z * (K<0L>() + Z)))) \
  Q(1, 0, "8", vm::eval(((X + X) * X), vm::make_vector(K<2L>()))) \
  Q(3, 1, "* + * -1 * x x * 2 x + y + * -1 x * 2 z", vm::expand((((X + X) - (X * X)) * ((Z - X) + (Z + Y))))) \
  Q(0, 0, "-2", vm::eval((K<-2L>() + K<0L>()), vm::make_vector(K<0L>()))) \
  Q(0, 0, "+ -4 + x * -1 * / 1 z + 84 + x z", vm::substitute(Y, ((K<7L>() * K<12L>()) + (Z + X)), ((X + K<-4L>()) - (Y / Z)))) \
  Q(2, 0, "-1", vm::diff(vm::simplify((((K<6L>() - K<0L>()) - Z) + ((K<3L>() + K<4L>()) * (Y - X)))), Z)) \
  Q(4, 0, "1", vm::coefficient(Y, (Y + (Z * K<-3L>())))) \
  Q(3, 0, "0", vm::diff((K<3L>() + (X * X)), Z)) \
  Q(0, 0, "-1", vm::drop_dependent_terms(X, (K<1L>() + K<-2L>()))) \
  Q(3, 0, "+ z + * -6 x * 7 y", vm::simplify((((K<4L>() + K<3L>()) * (Y - X)) + ((X + Z) + (K<0L>() / K<2L>()))))) \
  Q(1, 0, "0", vm::integrate(vm::make_interval(Z, Z), (K<1L>() / X), Y)) \
  Q(2, 0, "+ y z", vm::simplify(((K<1L>() * Z) + Y))) \
  Q(4, 0, "0", vm::integrate(vm::make_interval(Y, Y), (X + Y), X)) \
  Q(1, 0, "+ 3 x", vm::expand(((K<3L>() - Z) + (X + Z)))) \
  Q(3, 0, "9", vm::eval((Z + K<9L>()), vm::make_vector(K<-1L>(), K<0L>(), K<0L>()))) \
  Q(0, 1, "+ -16 + * -4 y * 8 x", vm::expand((((X + X) - (K<4L>() + Y)) * K<4L>()))) \
  Q(4, 0, "65533", vm::eval(((X + K<65536L>()) + (K<-3L>() - X)), vm::make_vector(K<2L>()))) \
  Q(0, 0, "* 2 * + 5 + x z + 5 + x z", vm::substitute(X, ((X + K<7L>()) + (K<-2L>() + Z)), ((X * X) + (X * X)))) \
  Q(3, 0, "-6", vm::substitute(Y, (Y - K<-3L>()), vm::diff((K<5L>() - ((K<6L>() * Z) + (X - X))), Z))) \
  Q(0, 0, "+ / -9 4 * 2 y", vm::substitute(Z, (K<1L>() - K<-2L>()), (((Z / K<4L>()) + (Y * K<2L>())) - (Z - (K<0L>() * K<1L>()))))) \
  Q(4, 0, "* / 1 + / 2 5 * / 1 5 y + -12 x", vm::diff(((K<1L>() / ((Y - K<-2L>()) / K<5L>())) * (((K<4L>() / K<4L>()) - (K<12L>() - K<3L>())) - ((Z - Y) * (K<12L>() - X)))), Z)) \
  Q(1, 0, "* 4 y", vm::coefficient(W, ((W - X) * (Y * K<4L>())))) \
  Q(1, 0, "0", vm::diff((X - (K<3L>() / X)), Z)) \
  Q(3, 0, "* / 1 12 x", vm::drop_dependent_terms(Z, ((X / K<4L>()) / K<3L>()))) \
  Q(1, 0, "* 3 * y + 6 * -1 y", vm::simplify((((Z - Z) + K<3L>()) * ((K<0L>() + Y) * (K<6L>() - Y))))) \
  Q(4, 0, "0", vm::integrate(vm::make_interval((X * Z), (Z + Z)), ((K<0L>() * K<4L>()) * (K<0L>() / K<12L>())), Y)) \
  Q(0, 0, "+ -5 + x z", vm::expand((((X / K<-1L>()) + (K<5L>() - Z)) / K<-1L>()))) \
  Q(2, 0, "8", vm::eval((Y + K<1L>()), vm::make_vector(K<2L>(), K<7L>()))) \
  Q(1, 0, "0", vm::substitute(X, (X + (Y - Y)), (((X * K<1L>()) + (Z * Y)) * ((K<3L>() / K<5L>()) * (X - X))))) \
  Q(2, 0, "* -2 * y y", vm::simplify(vm::expand((((K<0L>() * Y) + (Y - K<0L>())) * ((K<1L>() * Y) * (K<1L>() * K<-2L>())))))) \
  Q(2, 0, "+ 2 * / -3 4 x", vm::substitute(Y, K<7L>(), ((X / K<4L>()) - (X - K<2L>())))) \
  Q(1, 0, "* -1 / 1 z", vm::diff((((Y + K<7L>()) + (K<1L>() + Z)) - ((X / Z) + (Z * Z))), X)) \
  Q(0, 0, "+ -9 * / -9 2 x", vm::integrate(vm::make_interval(X, K<-2L>()), (K<9L>() / K<2L>()), Z)) \
  Q(0, 0, "+ -1 + * / 3 2 y * -4 * / 1 z * / 1 + -1 * 12 / 1 x / 1 + -5 x", vm::simplify(((((K<-4L>() / Z) / (X - K<5L>())) / ((K<12L>() / X) - (X / X))) + (((K<-3L>() / K<3L>()) + (Y / K<2L>())) + Y)))) \
  Q(1, 0, "* -1 * x x", vm::integrate(vm::make_interval(K<5L>(), (K<2L>() * K<2L>())), ((X * X) * K<1L>()), Y)) \
  Q(1, 0, "+ 1 + * -1 z + * -4 y * y z", vm::expand((((Z * Y) - (K<-1L>() - Z)) - ((Z * K<2L>()) + (K<4L>() * Y))))) \
  Q(2, 0, "9", vm::eval(((K<-4L>() + Y) - (K<12L>() / K<-3L>())), vm::make_vector(K<2L>(), K<9L>(), K<-3L>()))) \
  Q(0, 1, "+ 12 + z * 2 x", vm::expand(((Z + K<12L>()) - (X * K<-2L>())))) \
  Q(3, 0, "/ -22 27", vm::eval((((Y * K<6L>()) - (Y + X)) / ((K<9L>() * K<-1L>()) * (X - K<5L>()))), vm::make_vector(K<2L>(), K<-4L>()))) \
  Q(1, 0, "* x + / 1 z + * -1 y + * -1 z * z / 1 x", vm::substitute(K<-2L>(), ((Z / X) - (K<0L>() + Y)), (((K<-2L>() - Z) + (K<1L>() / Z)) * X))) \
  Q(0, 0, "0", vm::diff(((X - K<2L>()) + K<-2L>()), Y)) \
  Q(0, 0, "0", vm::drop_dependent_terms(X, ((X * X) * (X * X)))) \
  Q(4, 0, "+ * / -1 10 x * / -1 10 y", vm::simplify(((Y + X) / K<-10L>()))) \
  Q(1, 0, "+ * z z + * 3 * x x * -4 * x z", vm::integrate(vm::make_interval(Z, (K<3L>() * X)), (X - Z), Y)) \
  Q(2, 0, "* y / 1 + * -1 z * / 1 4 y", vm::simplify((Y / ((Y / K<4L>()) - Z)))) \
  Q(1, 0, "+ 4 + * -2 x + * -2 y + * 6 / 1 x + * x y * -3 * y / 1 x", vm::integrate(vm::make_interval(K<2L>(), Y), ((X - K<2L>()) - (K<3L>() / X)), Z)) \
  Q(0, 0, "+ -5 * 3 / 1 x", vm::substitute((X - K<2L>()), (K<5L>() * K<1L>()), ((K<3L>() / X) - (X - K<2L>())))) \
  Q(0, 0, "* 2 y", vm::expand(vm::expand(((X + X) / (X / Y))))) \
  Q(1, 0, "-12", vm::substitute(Y, (K<-10L>() + K<-2L>()), Y)) \
  Q(0, 0, "+ * / 1 + -11 * 4 x / 1 + z * -1 x + * -9 * y + 3 x * -9 * + 3 x + x + y z", vm::diff(((((Y - X) / (Z - X)) / ((K<-1L>() + K<-10L>()) - (X * K<-4L>()))) - (((X - K<-3L>()) * (Y * K<9L>())) * ((X + Z) + Y))), Y)) \
  Q(0, 0, "0", vm::coefficient(W, ((K<12L>() * X) / K<-1L>()))) \
  Q(0, 0, "0", vm::diff(((X - K<2L>()) + K<1L>()), Z)) \
  Q(1, 0, "+ 98 + * -1 * y y + * 2 z + * 47 y * y z", vm::integrate(vm::make_interval((Y - Z), (K<7L>() * K<7L>())), (Y - K<-2L>()), X)) \
  Q(1, 1, "+ y + * -1 x * -18 * y z", vm::expand((((K<-2L>() * K<9L>()) * (Y * Z)) + ((Y - X) + (X * K<0L>()))))) \
  Q(0, 0, "/ 1 3", vm::eval((X / (X * X)), vm::make_vector(K<3L>()))) \
  Q(0, 0, "9", vm::substitute(Z, (Z * K<-4L>()), K<9L>())) \
  Q(0, 0, "+ z * * z z + 5 y", vm::simplify(vm::expand((Z + ((Z * Z) * (K<5L>() + Y)))))) \
  Q(1, 0, "+ * -1 * x * / 1 + -2 z + 1 * -1 z * 3 * z * / 1 + -2 z + 1 * -1 z", vm::substitute(Y, ((K<1L>() - Z) / (K<-2L>() + Z)), (((K<-1L>() * X) * Y) + ((Y * K<3L>()) * Z)))) \
  Q(1, 0, "0", vm::diff((K<0L>() * (X - K<2L>())), X)) \
  Q(1, 0, "0", vm::coefficient(Y, (X - K<4L>()))) \
  Q(4, 0, "+ 1 + * / 1 3 z * / 1 3 * y z", vm::simplify((((Y * Z) + (Z + K<3L>())) / K<3L>()))) \
  Q(2, 0, "+ * 2 y * 5 * y y", vm::integrate(vm::make_interval((Z - Y), Z), ((K<5L>() * Y) - K<-2L>()), X)) \
  Q(3, 0, "+ / -7 9 * / 1 9 y", vm::simplify((((K<2L>() + K<1L>()) + (Y + K<-10L>())) / K<9L>()))) \
  Q(2, 0, "9", vm::integrate(vm::make_interval((K<1L>() * K<0L>()), K<9L>()), (K<3L>() + K<-2L>()), Z)) \
  Q(0, 0, "* / 1 + / -28 5 * / -7 5 x + y * 9 z", vm::expand((((Z * K<9L>()) - (Y * K<-1L>())) / ((K<-4L>() - X) / (K<5L>() / K<7L>()))))) \
  Q(0, 0, "1", vm::eval(((X * X) / (X * X)), vm::make_vector(K<-1L>()))) \
  Q(0, 0, "* / 1 x * / 1 * y y + 9 * x y", vm::substitute(Z, Y, (((K<9L>() / K<1L>()) + (X * Z)) / ((X * Y) * Z)))) \
  Q(1, 0, "x", vm::simplify(vm::substitute(Y, X, X))) \
  Q(1, 0, "* / 1 7 z", vm::substitute(X, ((K<5L>() - Y) * (K<-3L>() - X)), (((Z * K<1L>()) / K<7L>()) - ((X + X) * (Y - Y))))) \
  Q(2, 0, "0", vm::diff(((Y + X) * K<3L>()), Z)) \
  Q(3, 0, "x", vm::drop_dependent_terms(Z, ((X * X) / X))) \
  Q(1, 0, "+ / 4 7 * / 1 7 y", vm::simplify(((Y + K<4L>()) / K<7L>()))) \
  Q(0, 0, "+ * -1 * y y * y w", vm::integrate(vm::make_interval(W, (Y + W)), (W - Y), X)) \
  Q(4, 0, "* -3 / 1 x", vm::expand((K<0L>() - (K<3L>() / X)))) \
  Q(2, 0, "/ 12 5", vm::eval((X / K<5L>()), vm::make_vector(K<12L>(), K<0L>(), K<-3L>()))) \
  Q(0, 1, "+ x * -1 * x * y z", vm::expand((X + ((X * K<-1L>()) * (Y * Z))))) \
  Q(0, 0, "-10", vm::eval(((Y + X) - (X + K<0L>())), vm::make_vector(K<-4L>(), K<-10L>(), K<7L>()))) \
  Q(3, 0, "* -8 * x y", vm::substitute(((Z - X) / (K<7L>() + Y)), Y, (((Z - X) / (K<7L>() + Y)) * ((X + X) * K<-4L>())))) \
  Q(3, 0, "+ 90 * -10 y", vm::simplify(vm::expand(((K<0L>() - K<-10L>()) * (K<9L>() - Y))))) \
  Q(3, 0, "3", vm::substitute(U, K<9L>(), (((K<-2L>() - K<-2L>()) / (Z - K<5000000000L>())) - (U / K<-3L>())))) \
  Q(4, 0, "0", vm::diff((Y + (K<3L>() / X)), Z)) \
  Q(2, 0, "2", vm::drop_dependent_terms(Y, (K<0L>() + K<2L>()))) \
  Q(4, 0, "* -5 * x y", vm::simplify(((K<-10L>() / K<2L>()) * (X * Y)))) \
  Q(0, 0, "+ / -63 2 * / 9 2 z", vm::integrate(vm::make_interval((K<2L>() - K<7L>()), K<4L>()), ((Z - K<7L>()) / K<2L>()), X)) \
  Q(1, 0, "* + 1 + y + * x x * 2 z + * -1 x + * -1 z + * x / 1 z * y z", vm::simplify(((((Z * Y) - (Z + X)) + ((Y * X) / (Y * Z))) * (((Z + Z) + (Y + K<1L>())) + ((X * X) - (X - X)))))) \
  Q(0, 0, "+ * -1 y * -1 * y z", vm::integrate(vm::make_interval(Y, (K<-1L>() * K<0L>())), (Z + K<1L>()), X)) \
  Q(3, 0, "* -56 z", vm::substitute(X, Z, ((K<-10L>() - K<-2L>()) * (X * K<7L>())))) \
  Q(0, 0, "* 3 * y + * 3 z * 4 y", vm::expand(vm::expand(((K<3L>() * Y) * ((Z * K<3L>()) - (Y * K<-4L>())))))) \
  Q(4, 0, "-3", vm::substitute(X, Y, (K<-2L>() - K<1L>()))) \
  Q(3, 0, "0", vm::diff(((K<0L>() + K<0L>()) / (Z - X)), X)) \
  Q(0, 0, "+ * -1 x * / -3 2 * x x", vm::integrate(vm::make_interval((X + K<1L>()), K<1L>()), (K<1L>() * (Y + X)), Y)) \
  Q(4, 0, "+ 1 + x * -1 z", vm::simplify(((X + K<1L>()) - Z))) \
  Q(4, 0, "+ * / 1 2 * z z + * / -5 2 * x x * 2 * x z", vm::integrate(vm::make_interval(X, Z), (X + (Y + X)), Y)) \
  Q(1, 0, "+ * 4 x + * * x x / 1 * z z * -1 * x y", vm::expand((((X * X) / (Z * Z)) - ((X * Y) - (X * K<4L>()))))) \
  Q(1, 0, "1", vm::eval(Y, vm::make_vector(K<-1L>(), K<1L>()))) \
  Q(0, 0, "+ -10 z", vm::substitute((K<-10L>() + Y), (Z + K<-10L>()), (K<-10L>() + Y))) \
  Q(2, 0, "0", vm::diff((Y - Z), X)) \
  Q(1, 0, "0", vm::coefficient(Z, ((K<-3L>() * K<1L>()) + (K<-4L>() * X)))) \
  Q(0, 0, "* / -1 3 * z / 1 * + -5000000000 y + -5000000000 y", vm::diff(((Z / (Y - K<5000000000L>())) / K<3L>()), Y)) \
  Q(4, 0, "* 2 y", vm::drop_dependent_terms(Z, (Y + Y))) \
  Q(1, 0, "* y / 1 * x x", vm::simplify((Y / (X * X)))) \
  Q(3, 0, "+ / 1 4 + * / -1 12 z * / 1 12 x", vm::integrate(vm::make_interval((X - Z), K<-3L>()), (((K<4L>() / K<2L>()) / K<-4L>()) / K<6L>()), Y)) \
  Q(2, 0, "+ y * x * y z", vm::expand((Y + (X * (Z * Y))))) \
  Q(0, 0, "-7", vm::eval((((Z - Z) - (Y - K<-3L>())) + ((K<-2L>() + K<-1L>()) / (K<-1L>() / Y))), vm::make_vector(K<0L>(), K<-2L>(), K<0L>()))) \
  Q(2, 1, "* 35 * y * z + -9 + * -1 x * 7 y", vm::expand((((K<7L>() * Y) * (Z * K<5L>())) * ((Y * K<7L>()) - (X + K<9L>()))))) \
  Q(4, 0, "-22", vm::eval(((K<1L>() * Y) + (X * Z)), vm::make_vector(K<2L>(), K<-2L>(), K<-10L>()))) \
  Q(1, 0, "+ -2 y", vm::substitute((X - Z), K<7L>(), ((Y + K<5L>()) - (X - Z)))) \
  Q(1, 0, "+ 6 + * -2 y + * 8 x * -2 * + 6 * -1 z + y z", vm::diff(((((Z + Y) * (K<6L>() - Z)) - ((Z / Z) * (X + X))) * (((X + K<-3L>()) - (Z - Y)) - ((X + X) + (X - Z)))), X)) \
  Q(1, 0, "0", vm::coefficient(X, ((K<5L>() * Y) - K<-2L>()))) \
  Q(1, 0, "* z / 1 y", vm::simplify((Z / Y))) \
  Q(0, 0, "+ / -117 2 + * / 1 2 * z z * 2 z", vm::integrate(vm::make_interval(K<9L>(), Z), (((K<-10L>() / K<5L>()) - Y) / K<-1L>()), Y)) \
  Q(1, 0, "* 5 y", vm::expand(((K<5L>() * Y) - K<0L>()))) \
  Q(1, 0, "2", vm::eval((K<0L>() - (X - K<2L>())), vm::make_vector(K<0L>()))) \
  Q(2, 0, "* x y", vm::substitute(Z, ((Z / K<7L>()) / (K<-2L>() - K<3L>())), (Y * X))) \
  Q(0, 0, "0", vm::diff(vm::simplify((Z + Z)), Y)) \
  Q(1, 0, "y", vm::substitute(Z, ((K<0L>() * K<-2L>()) / K<-3L>()), Y)) \
  Q(0, 0, "0", vm::diff((K<3L>() * K<1L>()), X)) \
  Q(0, 0, "/ -1 2", vm::coefficient(X, ((X / K<4L>()) * K<-2L>()))) \
  Q(1, 0, "0", vm::diff((K<-3L>() / K<-4L>()), Y)) \
  Q(1, 0, "* / 1 y + 3 z", vm::drop_dependent_terms(X, (((K<3L>() + Z) * (K<1L>() / Y)) + (X / K<2L>())))) \
  Q(2, 0, "+ 2 y", vm::simplify((Y + K<2L>()))) \
  Q(0, 0, "0", vm::integrate(vm::make_interval(X, X), (Y + Z), Y)) \
  Q(3, 0, "+ 4 + x + y * / 1 5 z", vm::simplify((((Z / K<5L>()) + Y) + ((X - K<-4L>()) * (Y / Y))))) \
  Q(1, 0, "+ * -72 / 1 x * 6 * y / 1 x", vm::integrate(vm::make_interval(Y, K<12L>()), ((K<3L>() / X) * K<-2L>()), Z)) \
  Q(4, 0, "1", vm::expand((X / X))) \
  Q(1, 0, "0", vm::eval(((X - X) * (Y - Y)), vm::make_vector(K<12L>(), K<12L>()))) \
  Q(0, 0, "+ 9 y", vm::substitute(((Z * K<2L>()) * Y), K<-1L>(), (((Y * K<1L>()) - K<-10L>()) + ((Z * K<2L>()) * Y)))) \
  Q(0, 0, "0", vm::diff((K<9L>() + K<-10L>()), Y)) \
  Q(2, 0, "0", vm::coefficient(Y, K<2L>())) \
  Q(3, 0, "0", vm::diff(((K<3L>() / X) / K<-2L>()), Y)) \
  Q(0, 0, "-2", vm::drop_dependent_terms(X, (K<-2L>() - X))) \
  Q(0, 0, "* / 1 5 * / 1 y + x y", vm::simplify(((Y + X) / (K<5L>() * Y)))) \
  Q(2, 0, "+ * / 207 2 x + * -7 * x w * / -1 2 * x * w w", vm::integrate(vm::make_interval((K<1L>() * W), K<9L>()), ((K<7L>() + Y) * (K<0L>() + X)), Y)) \
  Q(1, 0, "+ -3 + x + y + z * -1 * y z", vm::expand((((Z - Z) - (Z * Y)) + ((X + K<-3L>()) + (Z + Y))))) \
  Q(3, 0, "0", vm::eval((X * K<0L>()), vm::make_vector(K<-1L>(), K<9L>(), K<-1L>()))) \
  Q(1, 0, "* / 1 2 y", vm::substitute((((K<-4L>() + X) / K<6L>()) * ((Y + K<6L>()) / Y)), (Y / K<2L>()), (((K<-4L>() + X) / K<6L>()) * ((Y + K<6L>()) / Y)))) \
  Q(3, 0, "0", vm::expand(vm::diff(K<4L>(), X))) \
  Q(3, 0, "+ -5 + z + * -1 y * -1 * y y", vm::substitute(Z, Z, (Z - ((Y * Y) + (Y + K<5L>()))))) \
  Q(1, 0, "/ 1 x", vm::diff(((((Z - X) + K<0L>()) / X) + (((K<0L>() * X) - (K<12L>() + K<-70000L>())) * ((Y + Y) / K<6L>()))), Z)) \
  Q(2, 0, "* / -1 12 * x x", vm::drop_dependent_terms(Y, (((K<4L>() / K<2L>()) / K<6L>()) * ((X / K<-4L>()) * X)))) \
  Q(3, 0, "+ y z", vm::simplify((Y + Z))) \
  Q(0, 0, "-3", vm::eval(K<-3L>(), vm::make_vector(K<3L>(), K<100000L>()))) \
  Q(2, 0, "+ / 1 x * -1 y", vm::substitute(U, ((X - K<6L>()) - (K<4L>() * X)), ((U / (X * U)) - Y))) \
  Q(4, 0, "1", vm::diff(((K<6L>() + Y) + Z), Y)) \
  Q(2, 0, "1", vm::coefficient(X, (K<0L>() + (Y + X)))) \
  Q(3, 0, "0", vm::diff((((X / Z) / (X / K<-3L>())) / K<5L>()), X)) \
  Q(3, 0, "0", vm::drop_dependent_terms(X, ((X * K<2L>()) - (K<5L>() * X)))) \
  Q(4, 0, "+ / -100 3 * / -50 3 x", vm::simplify((((X + X) + K<4L>()) * ((K<-3L>() * K<2L>()) + (K<7L>() / K<-3L>()))))) \
  Q(0, 0, "+ * -1 * x x + * x z + * / -1 3 * z * x x * / 1 3 * x * z z", vm::integrate(vm::make_interval(X, Z), (((X / K<1L>()) * (Z / K<3L>())) + X), Y)) \
  Q(1, 0, "+ -1 x", vm::expand((K<1L>() + (X - K<2L>())))) \
  Q(3, 0, "7", vm::eval(X, vm::make_vector(K<7L>()))) \
  Q(4, 1, "0", vm::expand(((Y * (Z - Z)) * K<4L>()))) \
  Q(2, 0, "/ -1 60", vm::eval(((Z + (Y - Z)) / (K<9L>() * (K<-10L>() * Z))), vm::make_vector(K<1L>(), K<9L>(), K<6L>()))) \
  Q(4, 0, "12", vm::substitute(((K<-1L>() / Z) / Z), K<12L>(), ((K<-1L>() / Z) / Z))) \
  Q(2, 0, "0", vm::diff((K<3L>() - K<3L>()), Y)) \
  Q(0, 0, "+ y + * -1 * y y * -1 * y z", vm::integrate(vm::make_interval(Y, (K<1L>() - Z)), Y, X)) \
  Q(2, 0, "+ * -5 y * / 1 4 x", vm::simplify(((X / K<4L>()) - (K<5L>() * Y)))) \
  Q(0, 0, "/ 19 2", vm::integrate(vm::make_interval(K<-3L>(), K<-1L>()), (((K<7L>() * W) + (K<-10L>() / K<2L>())) / K<-4L>()), W)) \
  Q(1, 1, "+ 15 * -1 x", vm::expand((((K<5L>() - K<-10L>()) + (Z * K<0L>())) - X))) \
  Q(1, 0, "3", vm::eval(((X - K<2L>()) - K<1L>()), vm::make_vector(K<6L>(), K<1L>(), K<-4L>()))) \
  Q(4, 0, "+ -11 * x z", vm::substitute(Y, Z, ((X * Y) - (K<9L>() - K<-2L>())))) \
  Q(4, 0, "+ 1 * -1 * x + -10 x", vm::diff(vm::expand((((X + Z) + (X - X)) - ((X + K<-10L>()) * (Z * X)))), Z)) \
  Q(1, 0, "0", vm::coefficient(Y, (K<0L>() / K<1L>()))) \
  Q(4, 0, "0", vm::diff((K<0L>() + (X - K<2L>())), Y)) \
  Q(1, 0, "0", vm::drop_dependent_terms(Z, ((X - X) * (K<1L>() - Z)))) \
  Q(3, 0, "+ -2 x", vm::simplify((K<1L>() * (X - K<2L>())))) \
  Q(3, 0, "+ 8 + * -8 z * 16 x", vm::integrate(vm::make_interval((Z - K<1L>()), (X + X)), (K<5L>() - K<-3L>()), Y)) \
  Q(3, 0, "+ / -7 500000 + * / 1 5000000000 x + * / 1 5000000000 y * / 1 5000000000 z", vm::expand((((X + Z) + (Y + K<-70000L>())) / K<5000000000L>()))) \
  Q(1, 0, "+ * * z * z z + y * -1 x * 3 * * z z * + -1 z + y * -1 x", vm::diff(vm::expand((((Y - X) * Z) * ((Z - K<1L>()) * (Z * Z)))), Z)) \
  Q(3, 0, "0", vm::coefficient(Y, ((K<3L>() / X) * K<-2L>()))) \
  Q(3, 0, "0", vm::diff(((Y + X) / K<1L>()), Z)) \
  Q(4, 0, "0", vm::integrate(vm::make_interval(Y, Y), ((K<-4L>() + (Y - K<1L>())) / K<2L>()), Z)) \
  Q(2, 0, "+ y * y z", vm::simplify(((Y * Z) + (Y / K<1L>())))) \
  Q(4, 0, "+ * 14 * z z * -14 * y z", vm::integrate(vm::make_interval(Z, Y), (K<7L>() * ((Z + Z) / K<-1L>())), X)) \
  Q(0, 1, "0", vm::expand((((X * X) * (Z - Z)) * ((Z * K<12L>()) * (Y * Z))))) \
  Q(3, 0, "-20", vm::eval((X - (X * X)), vm::make_vector(K<-4L>()))) \
  Q(2, 0, "* 6 / 1 y", vm::substitute(Y, (K<6L>() / Y), Y)) \
  Q(1, 0, "w", vm::simplify(vm::expand(W))) \
  Q(0, 0, "* -1 * / 1 x * z z", vm::substitute(((K<-4L>() - X) / (Z / K<0L>())), ((Z / X) * (K<0L>() - Z)), ((K<-4L>() - X) / (Z / K<0L>())))) \
  Q(4, 0, "* 2 x", vm::diff(((X * X) * K<1L>()), X)) \
  Q(1, 0, "x", vm::coefficient(Y, (Y * X)))
#endif
#if CTM_SLICE == 2
#define CTM_CASES(Q) \
  Q(0, 0, "-1", vm::diff(((K<3L>() / K<4L>()) + (Z - Y)), Y)) \
  Q(1, 0, "* 4 x", vm::drop_dependent_terms(W, ((X * X) / (X / K<4L>())))) \
  Q(4, 0, "+ -1 + * 4 z * x z", vm::simplify((((K<0L>() * Y) - (K<-4L>() * Z)) + ((Z * X) + (K<-1L>() / K<1L>()))))) \
  Q(2, 0, "+ * / -1 10 * z z * / -1 10 * y z", vm::integrate(vm::make_interval(K<1L>(), (K<1L>() + Z)), ((Y + Z) / K<-10L>()), X)) \
  Q(0, 0, "* 9 * z z", vm::expand(((Z * Z) * ((K<0L>() * X) - (K<-4L>() - K<5L>()))))) \
  Q(3, 0, "80000000000", vm::eval((X * (X * K<5000000000L>())), vm::make_vector(K<-4L>(), K<12L>()))) \
  Q(3, 1, "+ x + y * -1 * x z", vm::expand(((Y + X) - (X * Z)))) \
  Q(3, 0, "6", vm::eval((Y - K<3L>()), vm::make_vector(K<2L>(), K<9L>(), K<6L>()))) \
  Q(2, 0, "+ -2 z", vm::substitute(Y, (K<12L>() * K<3L>()), (K<-2L>() + Z))) \
  Q(2, 0, "* / 1 y * / 1 z * + 2 y + 7 y", vm::simplify(vm::expand((((Y + K<7L>()) * (K<2L>() + Y)) / (Y * Z))))) \
  Q(2, 0, "+ 1 z", vm::substitute(X, X, (Z - K<-1L>()))) \
  Q(0, 0, "0", vm::diff(((K<3L>() / X) / Y), W)) \
  Q(4, 0, "* x y", vm::drop_dependent_terms(Z, (X * Y))) \
  Q(0, 0, "+ 2 + x * z / 1 y", vm::simplify((((X + K<0L>()) + (Z / Y)) - K<-2L>()))) \
  Q(2, 0, "+ * / -1 2 * z z * / 14 9 z", vm::integrate(vm::make_interval(K<0L>(), Z), (((K<4L>() - Z) / K<2L>()) - ((K<4L>() / K<1L>()) / K<9L>())), X)) \
  Q(0, 0, "* 5 * y y", vm::expand(((K<5L>() * Y) * Y))) \
  Q(4, 0, "4", vm::eval((X / (X / K<4L>())), vm::make_vector(K<-3L>(), K<5L>()))) \
  Q(3, 1, "* x * * z z + y * -1 z", vm::expand((X * ((Y - Z) * (Z * Z))))) \
  Q(0, 0, "-11", vm::eval((K<1L>() - K<12L>()), vm::make_vector(K<0L>()))) \
  Q(3, 0, "+ -18 x", vm::substitute(U, Z, ((X - K<6L>()) + ((U - U) - (K<12L>() + K<0L>()))))) \
  Q(0, 0, "1", vm::diff(Y, Y)) \
  Q(1, 0, "0", vm::drop_dependent_terms(Y, ((Y / K<-2L>()) * K<-2L>()))) \
  Q(2, 0, "* y + -2 x", vm::simplify((Y * (X - K<2L>())))) \
  Q(2, 0, "+ * / -143 8 * y y * / 11 4 * y z", vm::integrate(vm::make_interval(Y, (Y * K<12L>())), ((X - Z) / K<-4L>()), X)) \
  Q(1, 0, "+ -2 * -1 y", vm::simplify((K<-2L>() - Y))) \
  Q(1, 0, "+ * x * x x + * / 1 2 * x x * x z", vm::integrate(vm::make_interval(Z, (X + Z)), (Y + (X * X)), Y)) \
  Q(1, 0, "* -1 x", vm::expand((K<0L>() - X))) \
  Q(3, 0, "-24", vm::eval((((Z * Y) * K<3L>()) / K<-3L>()), vm::make_vector(K<3L>(), K<6L>(), K<4L>()))) \
  Q(0, 1, "+ * -3 * x z * 3 * y z", vm::expand(((X - (X - K<-3L>())) * ((Z * X) - (Z * Y))))) \
  Q(0, 0, "1304", vm::eval((((X * X) * (X * X)) + ((K<0L>() + K<9L>()) + (K<0L>() - K<1L>()))), vm::make_vector(K<6L>()))) \
  Q(1, 0, "* / 1 + x * y / 1 x + 1 + x * -1 y", vm::substitute(Z, K<-1L>(), (((K<-1L>() - Y) + (K<2L>() + X)) / ((Y / X) + X)))) \
  Q(4, 0, "0", vm::diff(vm::simplify(((K<-4L>() / X) / (K<-4L>() * K<7L>()))), Y)) \
  Q(2, 0, "9", vm::substitute(K<0L>(), K<9L>(), K<0L>())) \
  Q(3, 0, "0", vm::diff((K<-2L>() + (X * X)), Y)) \
  Q(3, 0, "5", vm::coefficient(X, (X * K<5L>()))) \
  Q(1, 0, "0", vm::diff((((K<-2L>() + Z) / (K<-2L>() + X)) + ((X / K<-10L>()) * (X * X))), Y)) \
  Q(4, 0, "+ -3 y", vm::drop_dependent_terms(X, (Y - K<3L>()))) \
  Q(2, 0, "* 6 / 1 y", vm::simplify((((X / X) / (Y / K<6L>())) - ((Z + Z) * K<0L>())))) \
  Q(3, 0, "* 12 x", vm::integrate(vm::make_interval(K<0L>(), K<12L>()), X, Y)) \
  Q(0, 0, "-69993", vm::simplify((K<7L>() + K<-70000L>()))) \
  Q(1, 0, "0", vm::integrate(vm::make_interval(K<1L>(), (K<-2L>() * K<-4L>())), (K<0L>() * (X * X)), X)) \
  Q(4, 0, "/ 2 5", vm::expand(((K<4L>() - (K<2L>() * K<4L>())) / K<-10L>()))) \
  Q(2, 0, "2", vm::eval(((Y + X) + (Y / Y)), vm::make_vector(K<3L>(), K<-2L>()))) \
  Q(1, 0, "+ -5 * 4 y", vm::substitute(K<-4L>(), ((K<4L>() * Y) - (K<-1L>() + K<6L>())), K<-4L>())) \
  Q(4, 0, "0", vm::diff(vm::simplify(X), Z)) \
  Q(2, 0, "0", vm::substitute(W, (K<6L>() / K<12L>()), K<0L>())) \
  Q(3, 0, "* 6 y", vm::diff((((K<7L>() + K<5L>()) * (Y / K<2L>())) * ((Z + Z) - (K<4L>() - X))), X)) \
  Q(0, 0, "0", vm::coefficient(Z, ((Y + X) * K<1L>()))) \
  Q(1, 0, "0", vm::diff(((X / K<4L>()) / (K<5L>() * Y)), W)) \
  Q(0, 0, "+ * 4 * y y + * / -3 2 * z z * 5 * y z", vm::integrate(vm::make_interval((Z - Y), (K<3L>() * Y)), (Z + X), X)) \
  Q(4, 0, "+ * 10 y * / -1 70000 z", vm::expand(((Z / K<-70000L>()) - (Y * K<-10L>())))) \
  Q(3, 0, "6", vm::eval(((Y * (Y / Y)) + ((Y / Y) + (X * X))), vm::make_vector(K<1L>(), K<4L>()))) \
  Q(4, 0, "+ y + z * -13 * x z", vm::substitute(Z, Z, (((X * Z) * (K<-1L>() - K<12L>())) + ((K<1L>() * Y) + Z)))) \
  Q(1, 0, "0", vm::diff(K<-1L>(), Z)) \
  Q(1, 0, "+ * -6 * x x * 3 * z * x x", vm::integrate(vm::make_interval(K<2L>(), Z), (K<3L>() * (X * X)), Y)) \
  Q(0, 0, "* y * y y", vm::simplify(((Y * Y) * (Y * K<1L>())))) \
  Q(1, 0, "0", vm::integrate(vm::make_interval(K<-4L>(), X), (K<0L>() * X), Z)) \
  Q(1, 0, "+ * -1 z * / 48 7 y", vm::expand((((Y / K<-1L>()) / K<7L>()) - (Z - (Y * K<7L>()))))) \
  Q(3, 0, "8", vm::eval(((X * X) / (X / K<4L>())), vm::make_vector(K<2L>(), K<1L>(), K<12L>()))) \
  Q(1, 1, "0", vm::expand((((K<-1L>() + K<1L>()) * (Z + Y)) * ((X - Y) - (K<-3L>() * X))))) \
  Q(3, 0, "-11", vm::eval(((K<-2L>() - X) + (K<0L>() * Y)), vm::make_vector(K<9L>(), K<4L>()))) \
  Q(0, 0, "0", vm::substitute(X, K<2L>(), (Y * (Z - Z)))) \
  Q(3, 0, "0", vm::diff(vm::substitute(X, (Z * K<-10L>()), K<9L>()), Z)) \
  Q(3, 0, "y", vm::substitute(Z, ((K<-1L>() / X) * (X - Y)), Y)) \
  Q(1, 0, "+ -1 * -3 / 1 * x x", vm::diff(((K<3L>() / X) - (X - K<2L>())), X)) \
  Q(3, 0, "* / 1 5 y", vm::drop_dependent_terms(U, ((Y - U) / K<5L>()))) \
  Q(2, 0, "+ -1 + x y", vm::simplify(((Y + X) - K<1L>()))) \
  Q(0, 0, "0", vm::integrate(vm::make_interval(Z, Z), (X - Z), X)) \
  Q(3, 0, "* + -1 * -1 z + -8 * x z", vm::simplify((((Z * X) - (K<-2L>() - K<-10L>())) * ((K<-1L>() * Z) - (X / X))))) \
  Q(4, 0, "+ / -1 3 + * / 1 3 * y * y y + * -42 * x y * 42 * x * y y", vm::integrate(vm::make_interval((K<1L>() * K<1L>()), Y), (((X * K<7L>()) * (Y * K<6L>())) + (Z * (Z / K<1L>()))), Z)) \
  Q(2, 0, "* / -5 2 y", vm::expand(((K<5L>() * Y) / K<-2L>()))) \
  Q(4, 0, "1", vm::eval((X / X), vm::make_vector(K<-1L>()))) \
  Q(3, 1, "+ -10 + * -1 x * -7 z", vm::expand(((K<-10L>() - X) - (Z * K<7L>())))) \
  Q(0, 0, "-20", vm::eval(((K<1L>() - X) * K<-4L>()), vm::make_vector(K<-4L>()))) \
  Q(0, 0, "+ / 1 3 + x * -1 y", vm::substitute(X, ((X - K<1L>()) - (K<4L>() / K<-3L>())), (K<0L>() - (Y - X)))) \
  Q(2, 0, "* y * x * x x", vm::substitute(Z, (X - K<6L>()), vm::expand((((X * K<2L>()) / (K<4L>() / K<1L>())) * ((Y * X) * (X + X)))))) \
  Q(4, 0, "/ -1 3", vm::substitute(Y, K<6L>(), (K<-2L>() / Y))) \
  Q(0, 0, "0", vm::diff((Z + ((K<1L>() * K<6L>()) - (Z / K<-4L>()))), X)) \
  Q(4, 0, "/ 1 z", vm::coefficient(Y, ((K<1L>() / Z) * (Y - K<12L>())))) \
  Q(2, 0, "-1", vm::diff((Y - (X - K<-1L>())), X)) \
  Q(1, 0, "* 9 / 1 x", vm::drop_dependent_terms(Y, ((K<3L>() / X) * K<3L>()))) \
  Q(3, 0, "1", vm::simplify((X / X))) \
  Q(1, 0, "+ -4 * -4 y", vm::integrate(vm::make_interval(K<1L>(), K<-1L>()), ((K<4L>() + Y) - (K<2L>() - Y)), Z)) \
  Q(1, 0, "1", vm::expand(K<1L>())) \
  Q(1, 0, "0", vm::eval((Y * ((X - X) * K<2L>())), vm::make_vector(K<6L>(), K<4L>()))) \
  Q(1, 0, "+ * -1 x + * -1 z * y * / 1 z + 12 z", vm::substitute(((Z + K<5L>()) + (Y / K<-4L>())), (Z + X), (((K<12L>() + Z) / (Z / Y)) - ((Z + K<5L>()) + (Y / K<-4L>()))))) \
  Q(0, 0, "* -1 * w * y y", vm::diff(vm::expand((((Y - X) * (W * Y)) * Y)), X)) \
  Q(0, 0, "* / 1 3 y", vm::substitute(W, X, ((Y / K<-3L>()) / K<-1L>()))) \
  Q(2, 0, "* 4 / 1 x", vm::diff((((Z + K<9L>()) / (X / K<4L>())) - ((Y * K<4L>()) * (X + X))), Z)) \
  Q(0, 0, "0", vm::coefficient(X, ((K<5L>() / K<7L>()) * (Z / K<2L>())))) \
  Q(3, 0, "-5", vm::diff(((X - K<2L>()) - (K<5L>() * Y)), Y)) \
  Q(0, 0, "0", vm::integrate(vm::make_interval(X, X), ((K<1L>() * K<6L>()) * (X - K<5L>())), Y)) \
  Q(1, 0, "+ * / 1 4 * z z * / 1 4 * x / 1 z", vm::expand((((X / Z) + (Z * Z)) / K<4L>()))) \
  Q(4, 0, "/ 27 4", vm::eval(((X / K<1L>()) - (X / K<4L>())), vm::make_vector(K<9L>()))) \
  Q(4, 1, "+ * 5 z * 12 y", vm::expand(((Z - (Z - Z)) - ((K<-4L>() * Z) - (Y * K<12L>()))))) \
  Q(0, 0, "4", vm::eval(((K<6L>() * (X + K<1L>())) / Y), vm::make_vector(K<1L>(), K<3L>()))) \
  Q(1, 0, "0", vm::substitute(Z, ((K<-3L>() * K<-2L>()) * (Z + K<-10L>())), (((X / K<-10L>()) * (K<-2L>() + K<2L>())) * X))) \
  Q(3, 0, "11", vm::substitute(Z, K<7L>(), vm::simplify((Z + (K<-3L>() + Z))))) \
  Q(1, 0, "0", vm::coefficient(X, (K<9L>() / K<9L>()))) \
  Q(3, 0, "+ * / -1 4 y * / 1 4 z", vm::diff((((Z - Y) / K<4L>()) * X), X)) \
  Q(1, 0, "+ -24 * 4 y", vm::integrate(vm::make_interval(K<6L>(), Y), ((K<2L>() / K<1L>()) + (K<2L>() / K<1L>())), Z)) \
  Q(1, 0, "* x + x y", vm::simplify(((Y + X) * X))) \
  Q(0, 0, "+ -34 + * -17 * x x + * 2 z + * 17 x + * z * x x * -1 * x z", vm::integrate(vm::make_interval(Z, (K<12L>() + K<5L>())), ((X - K<2L>()) - (X * X)), Y)) \
  Q(3, 0, "9", vm::expand((K<9L>() + ((K<0L>() * K<-2L>()) * (K<-4L>() + K<-2L>()))))) \
  Q(2, 0, "/ -1 5", vm::eval((((X + X) + (X - X)) / ((X / K<-10L>()) * (X * X))), vm::make_vector(K<-10L>()))) \
  Q(1, 0, "* / 1 5 * x + 1 z", vm::substitute(Z, ((K<6L>() + Z) - (K<5L>() + X)), ((X / K<5L>()) * (Z + X)))) \
  Q(3, 0, "1", vm::diff(((Z + Y) + (K<6L>() + X)), Z)) \
  Q(1, 0, "0", vm::coefficient(W, (X + K<12L>()))) \
  Q(2, 0, "* / 2 3 x", vm::diff((X * (X / K<3L>())), X)) \
  Q(1, 0, "* y / 1 * x x", vm::drop_dependent_terms(Z, (Y / (X * X)))) \
  Q(1, 0, "+ 7 + * x x + * 2 x + * -1 * y / 1 w * -3 * w + x w", vm::simplify(((((X * X) + K<7L>()) + ((X + X) + (K<0L>() / K<6L>()))) + (((W + X) * (K<-3L>() * W)) - (Y / W))))) \
  Q(4, 0, "0", vm::eval((X - X), vm::make_vector(K<5L>()))) \
  Q(0, 0, "* -2 y", vm::substitute(X, K<-1L>(), (((X * K<0L>()) / Y) - ((X - K<-3L>()) * Y)))) \
  Q(2, 0, "15", vm::simplify(vm::diff(((K<9L>() + K<6L>()) * (Y + K<3L>())), Y))) \
  Q(4, 0, "+ -2 * 2 x", vm::substitute(Y, Y, ((X - K<2L>()) + X))) \
  Q(2, 0, "0", vm::diff(((X - K<2L>()) - (X - K<2L>())), X)) \
  Q(0, 0, "0", vm::coefficient(X, (((Y * Y) * (K<1L>() * Z)) / K<7L>()))) \
  Q(0, 0, "0", vm::diff((Y - X), W)) \
  Q(3, 0, "+ / 285 2 + * 6 * y y * / -117 2 y", vm::integrate(vm::make_interval(K<0L>(), (Y - K<5L>())), ((K<12L>() * Z) + (K<3L>() / K<2L>())), Z)) \
  Q(1, 0, "+ -1 + z * 2 x", vm::simplify((((X + X) - K<-4L>()) - ((K<-2L>() + K<3L>()) * (K<5L>() - Z))))) \
  Q(4, 0, "+ * -5 * y y + * -2 y + * 10 z * 25 * y z", vm::integrate(vm::make_interval((K<5L>() * Z), Y), (K<-2L>() - (K<5L>() * Y)), X)) \
  Q(3, 0, "+ -1 + x * z z", vm::expand((((Z * Z) + (K<-10L>() + X)) - ((Z / Z) + K<-10L>())))) \
  Q(0, 0, "-1", vm::eval(((X + K<2L>()) + ((K<1L>() * X) + X)), vm::make_vector(K<-1L>()))) \
  Q(4, 1, "+ -6 + y + * z z * 7 z", vm::expand((((K<7L>() * Z) + (Y - K<-1L>())) + ((Z * Z) - K<7L>())))) \
  Q(4, 0, "/ 3 4", vm::eval(((K<3L>() / X) * (X / K<4L>())), vm::make_vector(K<-1L>()))) \
  Q(2, 0, "* + 14 * -1 z + * -1 z + * x + 9 * -1 z * y z", vm::substitute(X, ((K<9L>() - Z) * X), (((K<-2L>() * K<-4L>()) + (K<6L>() - Z)) * ((X - Z) + (Z * Y))))) \
  Q(0, 0, "0", vm::diff(((Z * Z) - (X + K<-70000L>())), Y)) \
  Q(2, 0, "+ * -5 * y y * 5 x", vm::coefficient(X, ((K<5L>() * (X * K<1L>())) * ((X - K<0L>()) - (Y * Y))))) \
  Q(2, 0, "+ 3 + x * / 1 3 y", vm::simplify(((Y / K<3L>()) - (K<-3L>() - X)))) \
  Q(1, 0, "+ * 3 * x x * -3 * x z", vm::integrate(vm::make_interval(Z, X), (X * K<3L>()), Y)) \
  Q(3, 0, "+ -16 * -1 z", vm::expand((K<-4L>() - (K<12L>() + Z)))) \
  Q(4, 0, "-1", vm::eval(Y, vm::make_vector(K<-3L>(), K<-1L>()))) \
  Q(1, 1, "0", vm::expand(((Y - Y) - K<0L>()))) \
  Q(0, 0, "1", vm::eval((X + K<1L>()), vm::make_vector(K<0L>()))) \
  Q(0, 0, "* / 1 4 * x x", vm::substitute(Z, (Z / K<-4L>()), (X * (X / K<4L>())))) \
  Q(1, 0, "+ -1 + * -1 y * -1 * w w", vm::simplify(vm::simplify(((K<-1L>() - Y) - (W * W))))) \
  Q(1, 0, "y", vm::substitute((W * Y), Y, (W * Y))) \
  Q(1, 0, "* -15 * y / 1 * x x", vm::diff(((K<3L>() / X) * (K<5L>() * Y)), X)) \
  Q(0, 0, "-12", vm::coefficient(Y, (((K<6L>() * K<6L>()) * (Y / K<-3L>())) - (K<7L>() * (Z * K<1L>()))))) \
  Q(0, 0, "0", vm::diff((K<-4L>() / K<2L>()), X)) \
  Q(1, 0, "+ * / 1 5 * z * z z + * / 19 5 * z z + * / -19 5 * y z * / -1 5 * y * z z", vm::integrate(vm::make_interval((Z + K<9L>()), K<-10L>()), (Z * ((Y - Z) / K<5L>())), X)) \
  Q(3, 0, "+ -1 * 4 z", vm::simplify((((Z * K<5L>()) / K<1L>()) - (Z + (K<6L>() / K<6L>()))))) \
  Q(3, 0, "+ * / -1 9 x + * / -1 9 * x x * / 1 9 * x z", vm::integrate(vm::make_interval((X - K<-1L>()), Z), (X / K<9L>()), Y)) \
  Q(1, 0, "+ / 1 2 + * / 1 2 w * -2 * x * y w", vm::expand((((K<1L>() + W) / (K<-1L>() * K<-2L>())) - ((Y + Y) * (W * X))))) \
  Q(1, 0, "0", vm::eval((((X / K<65536L>()) * K<12L>()) * Y), vm::make_vector(K<9L>(), K<0L>(), K<65536L>()))) \
  Q(0, 0, "* y * z + y * -1 x", vm::substitute((Y * K<-2L>()), ((Y * Z) * (Y - X)), (Y * K<-2L>()))) \
  Q(2, 0, "/ 1 y", vm::diff((((K<7L>() + Z) - (K<0L>() * K<-2L>())) / Y), Z)) \
  Q(3, 0, "y", vm::drop_dependent_terms(Z, Y)) \
  Q(1, 0, "3", vm::simplify((K<3L>() + K<0L>()))) \
  Q(0, 0, "+ * -1 * y y + * -2 y * y z", vm::integrate(vm::make_interval((Y - K<-2L>()), Z), Y, X)) \
  Q(0, 0, "+ 1 + * 10 / 1 x * / 1 + -3 z + -10 x", vm::expand((((K<-10L>() + X) / (K<-3L>() + Z)) - ((K<-10L>() / X) + K<-1L>())))) \
  Q(3, 0, "-6", vm::eval((X - K<5L>()), vm::make_vector(K<-1L>()))) \
  Q(4, 1, "* + * -1 y * 6 z + 1 + * -1 y * -1 z", vm::expand((((K<1L>() - Y) - Z) * ((Z * K<5L>()) - (Y - Z))))) \
  Q(4, 0, "75", vm::eval(((K<-10L>() - (X + K<1L>())) * ((K<7L>() - X) + (Y * K<-2L>()))), vm::make_vector(K<4L>(), K<4L>()))) \
  Q(2, 0, "+ / 8 27 * 2 w", vm::substitute(X, ((K<7L>() + K<1L>()) / K<-3L>()), ((W * K<2L>()) - (X / K<9L>())))) \
  Q(2, 0, "0", vm::diff(((K<-4L>() + Z) / (K<0L>() - Y)), X)) \
  Q(1, 0, "* / 1 4 x", vm::drop_dependent_terms(Y, ((X / K<4L>()) - (K<5L>() * Y)))) \
  Q(3, 0, "+ * / 1 5 x * / 1 24 z", vm::simplify(((K<0L>() + (X / K<5L>())) - ((Z / K<-4L>()) / K<6L>())))) \
  Q(2, 0, "+ * -4 * z z * 4 * x z", vm::integrate(vm::make_interval(Z, X), (Z * K<4L>()), Y)) \
  Q(4, 0, "+ -4 + * -2 z * y + -5 z", vm::simplify((((K<-2L>() * Z) - K<4L>()) + (Y * (Z - K<5L>()))))) \
  Q(0, 0, "61", vm::eval(((X * X) + (Y * Y)), vm::make_vector(K<5L>(), K<6L>(), K<5L>()))) \
  Q(1, 1, "+ 5 + x + * -1 y * + -2 z + 6 y", vm::expand((((K<-4L>() - Y) + (K<9L>() + X)) + ((Z + K<-2L>()) * (K<6L>() + Y))))) \
  Q(1, 0, "/ 91 22", vm::eval((((Z * K<-4L>()) + (K<9L>() - Y)) / ((K<1L>() / K<7L>()) - (Y / Z))), vm::make_vector(K<-4L>(), K<12L>(), K<-4L>()))) \
  Q(4, 0, "* / -28 5 / 1 y", vm::substitute((Z - K<-1L>()), (K<5L>() - K<4L>()), (((Z - K<-1L>()) + K<6L>()) / ((Y * K<5L>()) / K<-4L>())))) \
  Q(4, 0, "+ 12 x", vm::simplify(vm::substitute(Z, (K<-2L>() - K<6L>()), ((X - Z) - (K<-1L>() + K<-3L>()))))) \
  Q(0, 0, "/ 1 10", vm::coefficient(Z, (K<1L>() - ((K<1L>() + Z) / K<-10L>())))) \
  Q(0, 0, "* / 3 4 z", vm::diff((((Y + Y) - (X - Y)) * ((Z / K<4L>()) - (X - X))), Y)) \
  Q(4, 0, "+ 9 x", vm::drop_dependent_terms(Y, (K<9L>() + X))) \
  Q(3, 0, "0", vm::expand(((X * X) * K<0L>()))) \
  Q(2, 0, "1", vm::eval((K<3L>() + K<-2L>()), vm::make_vector(K<-4L>(), K<5L>(), K<1L>()))) \
  Q(0, 1, "* y * * x * x x + 9 * -2 x", vm::expand((((K<7L>() - X) - (X + K<-2L>())) * ((Y * X) * (X * X))))) \
  Q(4, 0, "-8", vm::eval((K<-2L>() - X), vm::make_vector(K<6L>()))) \
  Q(4, 0, "+ 9 * -1 z", vm::substitute(X, ((Y + K<3L>()) + K<-3L>()), (((Z * K<1L>()) * K<0L>()) + ((X + K<9L>()) - (Z + X))))) \
  Q(3, 0, "* / 1 * + 1 * -1 z + 1 * -1 z + 14 x", vm::diff((((K<1L>() + K<12L>()) + (K<1L>() + X)) / ((K<1L>() + Y) - (Z + Y))), Z)) \
  Q(1, 0, "0", vm::coefficient(Y, (((K<12L>() * K<6L>()) - (Z * K<9L>())) / Z))) \
  Q(3, 0, "* -3 / 1 * x x", vm::diff(((K<3L>() / X) - K<0L>()), X)) \
  Q(2, 0, "+ 4 * / -5 6 y", vm::drop_dependent_terms(Z, (((Y * K<-10L>()) / K<12L>()) + ((K<2L>() * Y) / (Y / K<2L>()))))) \
  Q(4, 0, "+ 1 * -1 y", vm::simplify((K<1L>() - Y))) \
  Q(1, 0, "+ -2 + * 2 y + * / -1 2 * y y * / 1 2 * * y y * w w", vm::integrate(vm::make_interval((K<-2L>() + Y), (Y * W)), X, X)) \
  Q(2, 0, "0", vm::simplify((K<0L>() * K<1L>()))) \
  Q(4, 0, "+ / 369 4 + * / -25 2 z * / 1 4 * z z", vm::integrate(vm::make_interval((K<-1L>() - Z), K<-10L>()), ((K<-10L>() - (K<5L>() + K<-2L>())) + ((K<0L>() - Y) / K<2L>())), Y)) \
  Q(0, 0, "+ -2 + x w", vm::expand(((K<0L>() - K<2L>()) + (X + W)))) \
  Q(1, 0, "/ -27 4", vm::eval(((X / K<4L>()) - X), vm::make_vector(K<9L>(), K<12L>()))) \
  Q(0, 0, "+ * / 1 2 y * -1 * x * w + -4 * -1 y", vm::substitute(W, W, (((Y * W) / (W + W)) - ((K<-4L>() - Y) * (W * X))))) \
  Q(0, 0, "+ 42 * / -599999 100000 x", vm::simplify(vm::simplify((((X / K<100000L>()) + X) - ((K<2L>() - K<9L>()) * (K<6L>() - X)))))) \
  Q(2, 0, "4", vm::substitute(X, (Z + Z), (Y + (K<4L>() - Y)))) \
  Q(4, 0, "0", vm::diff((K<0L>() * K<1L>()), X)) \
  Q(1, 0, "y", vm::drop_dependent_terms(X, (Y + (X * X)))) \
  Q(1, 0, "* y z", vm::simplify((Y * Z))) \
  Q(4, 0, "+ * -1 * x x + * -3 x + * 3 y * x y", vm::integrate(vm::make_interval(X, Y), (X + ((Z * K<1L>()) + (K<3L>() - Z))), Z)) \
  Q(4, 0, "* -8 / 1 x", vm::simplify((K<-2L>() / (X / K<4L>())))) \
  Q(1, 0, "* / -3 2 x", vm::integrate(vm::make_interval(K<3L>(), K<0L>()), (X / K<2L>()), Z)) \
  Q(4, 1, "* x * * y y + -3 + y z", vm::expand((((Y * Y) * X) * ((Y - K<3L>()) + Z)))) \
  Q(0, 0, "/ 3 25", vm::eval(((K<3L>() / X) / (K<5L>() * Y)), vm::make_vector(K<5L>(), K<1L>()))) \
  Q(4, 0, "* 2 / 1 z", vm::substitute((X * (K<10L>() - Y)), (K<2L>() / Z), (X * (K<10L>() - Y)))) \
  Q(4, 0, "0", vm::diff(((Y / K<2L>()) + (K<-1L>() + K<12L>())), Z)) \
  Q(0, 0, "6", vm::coefficient(U, (((Y + U) * (K<-3L>() + K<5L>())) - ((U * K<-4L>()) + Y)))) \
  Q(0, 0, "* -2 * / 1 * x * x x * / 1 + -7 y + -3 + / 1 y * -1 z", vm::diff((((K<-3L>() - Z) + (K<1L>() / Y)) / ((Y - K<7L>()) * (X * X))), X)) \
  Q(1, 0, "+ * -1 * x * x x + * -2 x + * 2 z * z * x x", vm::integrate(vm::make_interval(Z, X), (K<-2L>() - (X * X)), Y)) \
  Q(3, 0, "* -4 * x / 1 + -12 x", vm::simplify(((X * K<-4L>()) / (X - K<12L>())))) \
  Q(3, 0, "-9", vm::eval((X + K<1L>()), vm::make_vector(K<-10L>(), K<12L>()))) \
  Q(0, 0, "+ 1 * -5 y", vm::substitute(Z, ((Y + Z) + (X + K<-4L>())), (K<1L>() - (K<5L>() * Y)))) \
  Q(3, 0, "-1", vm::diff((((K<2L>() - K<-4L>()) - Z) + ((K<3L>() + K<-3L>()) - (K<-2L>() + Y))), Y)) \
  Q(0, 0, "0", vm::drop_dependent_terms(Y, ((X / K<4L>()) * K<0L>()))) \
  Q(0, 0, "+ x y", vm::simplify((X + Y))) \
  Q(1, 0, "+ * y y * -2 y", vm::integrate(vm::make_interval(K<2L>(), Y), Y, Z)) \
  Q(4, 0, "+ x y", vm::expand((K<1L>() * (Y + X)))) \
  Q(3, 0, "/ 101 30", vm::eval((((K<-3L>() / K<6L>()) * (K<-1L>() / K<3L>())) + ((X / Y) * (X * Z))), vm::make_vector(K<-2L>(), K<5L>(), K<4L>()))) \
  Q(3, 1, "* -24 y", vm::expand(((K<12L>() * Y) * K<-2L>()))) \
  Q(1, 0, "0", vm::eval((X * ((K<-3L>() + K<1L>()) - (K<-1L>() - X))), vm::make_vector(K<1L>()))) \
  Q(2, 0, "* y / 1 x", vm::substitute(Z, (Y / X), Z)) \
  Q(1, 0, "* / 1 4 z", vm::substitute(Y, K<6L>(), vm::diff(((Y - K<1L>()) * (Z / K<4L>())), Y))) \
  Q(1, 0, "y", vm::coefficient(X, (X * Y))) \
  Q(3, 0, "* y * z * + 11 * x y + z * -1 y", vm::simplify((((Y * Z) * (Z - Y)) * ((K<12L>() + K<-1L>()) + (X * Y))))) \
  Q(0, 0, "+ / -377 8 * -26 y", vm::integrate(vm::make_interval(K<-10L>(), K<3L>()), (((K<1L>() / K<4L>()) * (X * K<3L>())) - ((Y / K<1L>()) - (K<-1L>() - Y))), X)) \
  Q(0, 0, "* / 1 x * z z", vm::expand((((K<0L>() + Z) * Z) / X))) \
  Q(2, 0, "-1", vm::eval((K<-1L>() - Y), vm::make_vector(K<-10L>(), K<0L>(), K<-3L>()))) \
  Q(1, 0, "+ 2 + * -1 x * / -1 9 w", vm::substitute(Y, K<9L>(), (((K<5L>() - X) - (W / Y)) - K<3L>()))) \
  Q(1, 0, "* / 1 z + * -2 x * / -1 10 z", vm::expand(vm::expand((((Z / K<-10L>()) - (X + X)) / ((Z + Z) - Z))))) \
  Q(1, 0, "* / 1 7 * x + y * -1 x", vm::substitute(Y, Y, ((Y - X) * (X / K<7L>())))) \
  Q(2, 0, "0", vm::diff(K<1L>(), Z)) \
  Q(2, 0, "+ x * -1 y", vm::drop_dependent_terms(W, (X - Y))) \
  Q(3, 0, "+ * 3 / 1 x * 5 y", vm::simplify(((K<3L>() / X) + (K<5L>() * Y)))) \
  Q(4, 0, "+ * -1 * x x + * 9 x * -1 * x y", vm::integrate(vm::make_interval((X + Y), K<9L>()), X, Z)) \
  Q(2, 0, "+ -1 + * -1 x + * 12 y * 12 z", vm::simplify((((Z + Y) * (K<9L>() + K<3L>())) + ((Z / Z) - (X - K<-2L>()))))) \
  Q(0, 0, "+ * / -28 9 x * / 1 9 * x y", vm::integrate(vm::make_interval((K<4L>() * K<7L>()), Y), (X / K<9L>()), Z)) \
  Q(0, 0, "* 9 x", vm::substitute(K<45L>(), K<9L>(), (K<45L>() * X))) \
  Q(1, 0, "0", vm::diff(((K<3L>() / X) * X), Y)) \
  Q(0, 0, "+ -2 * -1 x", vm::drop_dependent_terms(Y, (K<-2L>() - (Y + X)))) \
  Q(0, 0, "+ -2 * -5 y", vm::simplify((K<-2L>() - (K<5L>() * Y)))) \
  Q(2, 0, "+ * -1 * y y * y z", vm::integrate(vm::make_interval(Y, Z), Y, X)) \
  Q(2, 0, "* / 1 3 x", vm::expand((K<1L>() / (K<3L>() / X)))) \
  Q(3, 0, "9", vm::eval(((K<5L>() * Y) - K<1L>()), vm::make_vector(K<6L>(), K<2L>()))) \
  Q(0, 0, "* -1 y", vm::substitute(U, Y, ((U - Y) - (K<1L>() * Y)))) \
  Q(1, 0, "+ 5 * / 1 4 * x / 1 + -10 z", vm::expand(vm::expand((((X / K<4L>()) / (Z + K<-10L>())) + K<5L>())))) \
  Q(3, 0, "+ 6 * -1 z", vm::substitute(X, (Z - K<6L>()), (K<0L>() - X))) \
  Q(0, 0, "0", vm::diff(K<65536L>(), X)) \
  Q(3, 0, "0", vm::coefficient(Z, ((X * X) - K<1L>()))) \
  Q(4, 0, "1", vm::diff((X + K<-2L>()), X)) \
  Q(4, 0, "* 6 / 1 x", vm::drop_dependent_terms(Y, ((K<3L>() / X) + (K<3L>() / X))))
#endif
#if CTM_SLICE == 3
#define CTM_CASES(Q) \
  Q(1, 0, "* / 1 9 z", vm::simplify((Z / (K<9L>() / K<1L>())))) \
  Q(2, 0, "+ -8 * 8 x", vm::integrate(vm::make_interval((X + X), K<2L>()), K<-4L>(), Z)) \
  Q(0, 0, "+ / 12 5 x", vm::expand(((K<6L>() / K<-10L>()) + (X + K<3L>())))) \
  Q(3, 0, "-9", vm::eval((K<1L>() + ((K<3L>() * Y) - (X - K<0L>()))), vm::make_vector(K<1L>(), K<-3L>(), K<-1L>()))) \
  Q(4, 1, "* y * x x", vm::expand((X * (X * Y)))) \
  Q(0, 0, "/ 1 7", vm::eval(((Y * Y) / K<7L>()), vm::make_vector(K<-1L>(), K<1L>(), K<-3L>()))) \
  Q(0, 0, "72", vm::substitute(Y, K<12L>(), ((K<5L>() * Y) + Y))) \
  Q(4, 0, "y", vm::simplify(vm::expand(Y))) \
  Q(0, 0, "* z * / 1 y * + 1 z + 2 * -1 z", vm::substitute(X, Z, (((K<2L>() - Z) * (Z / Y)) * ((Y / Y) + (X - K<0L>()))))) \
  Q(4, 0, "0", vm::diff((K<-2L>() - (X / K<4L>())), Y)) \
  Q(1, 0, "y", vm::coefficient(X, (Y * (Y + X)))) \
  Q(4, 0, "0", vm::diff((Y / K<1L>()), Z)) \
  Q(0, 0, "+ -20 * 2 y", vm::integrate(vm::make_interval((K<-10L>() + Y), (Y - Y)), ((K<2L>() + Z) - (K<4L>() + Z)), Z)) \
  Q(0, 0, "+ 1 * -1 y", vm::expand((K<1L>() - Y))) \
  Q(4, 0, "10", vm::eval(((K<-10L>() / K<2L>()) * (K<1L>() * K<-2L>())), vm::make_vector(K<6L>(), K<-2L>()))) \
  Q(3, 1, "0", vm::expand((((Z + K<-10L>()) * (X * K<0L>())) * ((K<7L>() + K<-2L>()) + (Y * Z))))) \
  Q(0, 0, "5", vm::eval(((Y - X) + (Y + K<0L>())), vm::make_vector(K<7L>(), K<6L>()))) \
  Q(3, 0, "* 21 x", vm::substitute(Y, K<0L>(), (((X - Y) * (K<6L>() + K<-3L>())) * K<7L>()))) \
  Q(3, 0, "+ 7 y", vm::expand(vm::substitute(X, X, ((Y + K<3L>()) + (K<0L>() - K<-4L>()))))) \
  Q(2, 0, "0", vm::coefficient(Y, (K<-2L>() - (X * X)))) \
  Q(3, 0, "z", vm::simplify((Z * K<1L>()))) \
  Q(3, 0, "+ * / 1 2 * x x + * / 1 2 * y y * -1 * x y", vm::integrate(vm::make_interval(Y, X), (X - Z), Z)) \
  Q(0, 0, "* z + 6 x", vm::simplify(((K<6L>() + X) * Z))) \
  Q(0, 0, "+ * / 1 2 * y y + * / 1 4 y * / 1 4 * x y", vm::integrate(vm::make_interval((K<-2L>() * Y), (X - K<-1L>())), (Y / K<4L>()), Z)) \
  Q(3, 0, "* 63 x", vm::expand((((K<6L>() * X) + X) * K<9L>()))) \
  Q(2, 0, "-5", vm::eval((K<-2L>() - (K<3L>() / X)), vm::make_vector(K<1L>(), K<-4L>(), K<-1L>()))) \
  Q(0, 1, "+ z * -4 x", vm::expand((Z - ((K<4L>() * X) * K<1L>())))) \
  Q(4, 0, "14", vm::eval(((Y / K<3L>()) - (X - K<3L>())), vm::make_vector(K<-10L>(), K<3L>()))) \
  Q(0, 0, "+ 1 * 3 z", vm::substitute(U, Z, ((U + (Z - K<2L>())) - ((K<3L>() - U) - (K<2L>() * K<3L>()))))) \
  Q(2, 0, "+ * z z * 5 y", vm::expand(vm::expand(((Y * K<5L>()) + (Z * Z))))) \
  Q(4, 0, "+ / 1 32 * -96 z", vm::substitute(Y, ((K<-2L>() + K<1L>()) / (K<-4L>() * K<-4L>())), ((Z / (Y / K<6L>())) - ((Y / K<2L>()) + (K<0L>() / Z))))) \
  Q(2, 0, "0", vm::diff(((X - K<2L>()) + (K<3L>() / X)), Z)) \
  Q(3, 0, "* x / 1 y", vm::coefficient(U, (((K<-2L>() + K<3L>()) + (X * U)) / Y))) \
  Q(1, 0, "0", vm::diff(((X / K<4L>()) * (X / K<4L>())), Z)) \
  Q(0, 0, "0", vm::drop_dependent_terms(X, ((K<1L>() * K<0L>()) / K<9L>()))) \
  Q(0, 0, "+ y * -10 * y + 3 x", vm::simplify((Y + ((K<3L>() + X) * (K<-10L>() * Y))))) \
  Q(3, 0, "+ * / 15 4 x * / 5 4 * y * x x", vm::integrate(vm::make_interval(K<-3L>(), (Y * X)), ((X / K<4L>()) + X), Z)) \
  Q(0, 0, "x", vm::simplify(X)) \
  Q(0, 0, "+ -6 * 2 x", vm::integrate(vm::make_interval(K<-3L>(), K<-1L>()), ((Y + X) - K<1L>()), Y)) \
  Q(4, 0, "+ -3 * -1 x", vm::expand((((K<0L>() + K<1L>()) * (K<5L>() - Y)) - ((K<7L>() + X) - (Y - K<1L>()))))) \
  Q(1, 0, "/ 9 4", vm::eval(((K<3L>() / X) * (K<3L>() / X)), vm::make_vector(K<2L>(), K<6L>(), K<-1L>()))) \
  Q(2, 1, "+ 3 + * -1 z * -2 x", vm::expand(((K<3L>() - Z) - (X + X)))) \
  Q(0, 0, "0", vm::eval(((K<0L>() * X) * K<5L>()), vm::make_vector(K<0L>()))) \
  Q(4, 0, "+ -5 + y * 3 / 1 y", vm::substitute(X, Y, (((Y * X) / X) + ((K<3L>() / X) + (K<5L>() * K<-1L>()))))) \
  Q(3, 0, "0", vm::diff(((K<12L>() - X) / X), Y)) \
  Q(2, 0, "1", vm::coefficient(Z, (((X - X) + (Z - K<6L>())) / K<1L>()))) \
  Q(3, 0, "1", vm::diff((K<-10L>() + Y), Y)) \
  Q(0, 0, "3", vm::drop_dependent_terms(Y, (K<3L>() - Y))) \
  Q(0, 0, "* 2 x", vm::simplify((X + X))) \
  Q(3, 0, "/ 4 5", vm::integrate(vm::make_interval((Y - K<1L>()), Y), ((K<4L>() / K<5L>()) / K<1L>()), X)) \
  Q(2, 1, "+ 21 * 21 x", vm::expand((((X + K<1L>()) - (Z - Z)) * ((K<6L>() + K<-3L>()) * (K<7L>() * K<1L>()))))) \
  Q(1, 0, "/ 7 12", vm::eval((X / ((Z - Y) + (K<12L>() + K<0L>()))), vm::make_vector(K<7L>(), K<1L>(), K<1L>()))) \
  Q(0, 0, "* + * / 1 3 x * / 1 3 y + * / 1 4 x * / 1 4 y", vm::substitute(X, (X + Y), ((X / K<4L>()) / (K<3L>() / X)))) \
  Q(0, 0, "0", vm::diff((Y + X), Z)) \
  Q(3, 0, "0", vm::integrate(vm::make_interval(K<0L>(), (Z - Z)), ((X - K<9L>()) + (K<3L>() - Y)), Y)) \
  Q(1, 0, "+ y * 2 z", vm::expand(((Y - Z) + (K<3L>() * Z)))) \
  Q(2, 0, "20", vm::eval(((K<5L>() * Y) * Y), vm::make_vector(K<0L>(), K<2L>(), K<9L>()))) \
  Q(0, 1, "+ * * x x + 1 x * -1 * + 4 x + 7 * -1 y", vm::expand((((X + K<1L>()) * (X * X)) - ((K<7L>() - Y) * (K<4L>() + X))))) \
  Q(4, 0, "8", vm::eval((K<-1L>() * ((K<-4L>() + K<-4L>()) - (X - X))), vm::make_vector(K<3L>()))) \
  Q(3, 0, "+ x * -1 y", vm::substitute(((X / K<4L>()) * (X * X)), (X - Y), ((X / K<4L>()) * (X * X)))) \
  Q(0, 0, "+ 7 * 7 y", vm::expand(vm::expand(((K<7L>() * Y) + (K<7L>() / K<1L>()))))) \
  Q(3, 0, "z", vm::substitute(Y, ((X / Y) * (Z + K<-1L>())), Z)) \
  Q(0, 0, "0", vm::diff(K<12L>(), Y)) \
  Q(1, 0, "0", vm::coefficient(X, (K<-3L>() + K<-2L>()))) \
  Q(2, 0, "+ -2 + x * x x", vm::simplify(((X - K<2L>()) + (X * X)))) \
  Q(1, 0, "+ -81 * 9 * x x", vm::integrate(vm::make_interval(K<-3L>(), X), ((Y * K<12L>()) + (Y * K<6L>())), Y)) \
  Q(0, 0, "+ -3 * z + 4 z", vm::simplify(((Z * (Z - K<-4L>())) + K<-3L>()))) \
  Q(1, 0, "+ / -49 2 + * / 1 2 * y y + * -7 w + * / 3 2 * w w * -2 * y w", vm::integrate(vm::make_interval(K<7L>(), (W - Y)), (X + W), X)) \
  Q(1, 0, "* / 6 7 * / 1 + 7 * -1 w / 1 + * y y * y / 1 w", vm::expand((((K<6L>() / K<7L>()) / (K<7L>() - W)) / ((Y * Y) + (Y / W))))) \
  Q(2, 0, "-13", vm::eval((((Y * X) - (Y + Z)) / K<-1L>()), vm::make_vector(K<0L>(), K<-10L>(), K<-3L>()))) \
  Q(3, 1, "* x * y * + -12 * y z + -10 x", vm::expand((((X * Y) * (X + K<-10L>())) * ((Z * Y) - K<12L>())))) \
  Q(0, 0, "1", vm::eval((Y - K<0L>()), vm::make_vector(K<2L>(), K<1L>(), K<0L>()))) \
  Q(4, 0, "* / 1 + -5 * 5 y + / 1 20 * / -1 20 * y / 1 x", vm::substitute(X, ((K<-2L>() / K<-2L>()) - (Y / X)), (((X / K<4L>()) / K<5L>()) / ((K<1L>() - Y) * (K<5L>() / K<-1L>()))))) \
  Q(0, 0, "* 3 y", vm::expand(vm::expand((K<3L>() * Y)))) \
  Q(0, 0, "0", vm::substitute(U, K<0L>(), (((U / K<3L>()) / (K<-4L>() + K<1L>())) * ((Y * Y) + (K<2L>() - K<1L>()))))) \
  Q(4, 0, "-1", vm::diff((K<9L>() - Z), Z)) \
  Q(2, 0, "0", vm::coefficient(Z, ((Y + X) / (X / K<4L>())))) \
  Q(0, 0, "0", vm::diff(K<2L>(), X)) \
  Q(2, 0, "+ 3 * z z", vm::drop_dependent_terms(Y, (K<3L>() + (Z * Z)))) \
  Q(0, 0, "* -2 * y * w w", vm::simplify((((X - X) - (Y * K<6L>())) * ((W * W) / K<3L>())))) \
  Q(0, 0, "+ * / -7 10 y * / 7 10 x", vm::integrate(vm::make_interval(X, Y), ((K<1L>() / K<2L>()) - (K<6L>() / K<5L>())), Z)) \
  Q(2, 0, "+ 24 + * -1 z + * / -1 2 x + * * y y + x * -1 y * / 1 2 * y / 1 x", vm::simplify(((((X - Y) * (Y * Y)) + (K<12L>() - (Z - K<12L>()))) - (((Z * X) / (Z + Z)) + ((Y / K<-2L>()) / (X + K<0L>())))))) \
  Q(4, 0, "/ -3 2", vm::eval((((K<-3L>() * Y) / (Y * Z)) - ((Z - Z) * (K<-10L>() + Z))), vm::make_vector(K<6L>(), K<2L>(), K<2L>()))) \
  Q(2, 1, "y", vm::expand(Y)) \
  Q(4, 0, "-3", vm::eval((K<-2L>() - (Y + X)), vm::make_vector(K<5L>(), K<-4L>(), K<6L>()))) \
  Q(2, 0, "* y * / 1 * z z / 1 + -5 + y * 2 z", vm::substitute(X, K<3L>(), (((Y / Z) / (Z / K<1L>())) / ((Z * K<2L>()) + (Y - K<5L>()))))) \
  Q(2, 0, "1", vm::diff((Y - K<0L>()), Y)) \
  Q(1, 0, "0", vm::coefficient(X, K<6L>())) \
  Q(0, 0, "-1", vm::diff(((X / K<9L>()) - (Y - Z)), Y)) \
  Q(1, 0, "+ 13 z", vm::drop_dependent_terms(Y, (((Z + K<12L>()) + (K<1L>() * K<1L>())) / K<1L>()))) \
  Q(1, 0, "+ y * / 5 4 x", vm::simplify(((Y + X) + (X / K<4L>())))) \
  Q(4, 0, "3", vm::eval(((X / X) + K<2L>()), vm::make_vector(K<7L>()))) \
  Q(1, 1, "* -144 * x * y * y y", vm::expand(((Y * (K<4L>() * K<9L>())) * ((Y * X) * (Y * K<-4L>()))))) \
  Q(4, 0, "/ 1073840129 16384", vm::eval((((Y + Y) + (X / Y)) + ((X - K<-2L>()) - Y)), vm::make_vector(K<4L>(), K<65536L>()))) \
  Q(4, 0, "* z / 1 x", vm::substitute(Y, ((K<5L>() * Z) * (K<1L>() * Y)), (Z / X))) \
  Q(2, 0, "6", vm::diff(vm::substitute(Y, K<1L>(), (X * K<6L>())), X)) \
  Q(3, 0, "* x * / 1 y / 1 + 6 * -1 y", vm::substitute(Z, X, ((X / Y) / (K<6L>() - Y)))) \
  Q(0, 0, "0", vm::diff((K<0L>() + X), Y)) \
  Q(1, 0, "0", vm::drop_dependent_terms(U, U)) \
  Q(0, 0, "+ 7 y", vm::simplify((K<7L>() + Y))) \
  Q(2, 0, "+ * -1 y + * / -1 2 * y * x x * / 3 2 * x y", vm::integrate(vm::make_interval(Y, (X * Y)), ((X - K<2L>()) / K<-2L>()), Z)) \
  Q(3, 0, "+ 8 + z * -1 x", vm::expand(((K<4L>() - (X + K<-4L>())) + Z))) \
  Q(1, 0, "/ 13 4", vm::eval((((K<1L>() / K<1L>()) + Y) - ((X / K<2L>()) / (Z / X))), vm::make_vector(K<7L>(), K<-10L>(), K<-2L>()))) \
  Q(0, 1, "* x * y y", vm::expand((X * (Y * Y)))) \
  Q(2, 0, "* -8 z", vm::substitute(X, K<-4L>(), vm::simplify(((K<-3L>() - K<1L>()) * (Z + Z))))) \
  Q(1, 0, "1", vm::coefficient(Z, (K<12L>() + Z))) \
  Q(2, 0, "0", vm::diff(((K<5L>() * Y) - (K<3L>() / X)), Z)) \
  Q(0, 0, "1", vm::drop_dependent_terms(U, (U - K<-1L>()))) \
  Q(2, 0, "+ -2 + y * x * z + -3 x", vm::simplify((((K<-3L>() + X) * (Z * X)) + ((X + K<-2L>()) + (Y - X))))) \
  Q(2, 0, "0", vm::integrate(vm::make_interval(Z, Z), (K<1L>() - K<0L>()), X)) \
  Q(4, 0, "+ x + * -1 * x y * -1 * x z", vm::expand((X - ((Y * X) + (Z * X))))) \
  Q(1, 0, "7", vm::eval((Y + K<0L>()), vm::make_vector(K<1L>(), K<7L>()))) \
  Q(1, 0, "+ 1 z", vm::substitute(Y, K<1L>(), ((K<0L>() + Z) + Y))) \
  Q(3, 0, "0", vm::diff((K<3L>() * (Y + X)), Z)) \
  Q(0, 0, "0", vm::coefficient(Y, (K<-1L>() + (K<-10L>() * X)))) \
  Q(0, 0, "1", vm::diff(((Z / Z) + Z), Z)) \
  Q(1, 0, "+ 1 * x z", vm::drop_dependent_terms(Y, ((Z / Z) + (X * Z)))) \
  Q(0, 0, "/ 1 9", vm::simplify(((K<4L>() / K<9L>()) / K<4L>()))) \
  Q(1, 0, "+ * / -1 6 * y y * / 1 3 * y w", vm::integrate(vm::make_interval((Y - W), (K<0L>() - W)), (X / K<3L>()), X)) \
  Q(0, 0, "-10", vm::expand(K<-10L>())) \
  Q(1, 0, "-11", vm::eval((X + Y), vm::make_vector(K<-1L>(), K<-10L>()))) \
  Q(2, 1, "+ * -1 z * -1 * x + x y", vm::expand((((X + Y) * (X * K<-1L>())) - Z))) \
  Q(1, 0, "-4", vm::eval((((Y * Y) - (X + Y)) + Y), vm::make_vector(K<5L>(), K<1L>()))) \
  Q(3, 0, "+ 14 * 3 x", vm::substitute(Z, (Z - Z), (((X + K<7L>()) + (K<9L>() / K<1L>())) - ((K<1L>() - X) * K<2L>())))) \
  Q(1, 0, "0", vm::diff(vm::diff(((Z + X) - ((X * K<5L>()) + (Z * Z))), X), X)) \
  Q(3, 0, "0", vm::coefficient(Y, ((X / K<4L>()) + K<3L>()))) \
  Q(4, 0, "1", vm::diff(((Y + Z) - (X + K<12L>())), Y)) \
  Q(1, 0, "+ 3 + * -6 / 1 x + * / -1 2 x * / 1 4 * x x", vm::integrate(vm::make_interval(K<2L>(), X), ((K<3L>() / X) + (X / K<4L>())), Y)) \
  Q(1, 0, "* + -2 * -1 y + 3 * 2 z", vm::simplify((((Y / K<-1L>()) - (K<2L>() * K<1L>())) * (Z + (Z - K<-3L>()))))) \
  Q(2, 0, "+ / -21 2 + * -1 * x * x x + * -5 z + * 2 x + * / -1 2 * z z + * / 7 2 * x x * z * x x", vm::integrate(vm::make_interval((X - K<3L>()), Z), ((X * X) - (K<5L>() + Y)), Y)) \
  Q(0, 1, "* -216 * x x", vm::expand((((X * K<1L>()) * K<1L>()) * ((K<-2L>() * K<12L>()) * (X * K<9L>()))))) \
  Q(2, 0, "2", vm::eval(((X / K<4L>()) - (X - K<2L>())), vm::make_vector(K<0L>()))) \
  Q(0, 0, "+ y + * -1 x * -1 * x / 1 z", vm::substitute(Z, Z, ((Y - X) - (X / Z)))) \
  Q(3, 0, "-1", vm::expand(vm::expand((K<4L>() / K<-4L>())))) \
  Q(0, 0, "+ 2 + * x x * -1 x", vm::substitute(Y, K<1L>(), ((X * X) - (X - K<2L>())))) \
  Q(0, 0, "-1", vm::diff((((W / W) * (Y * K<7L>())) - ((K<4L>() * Y) + (W + K<9L>()))), W)) \
  Q(1, 0, "+ / -9 2 * / -1 2 z", vm::coefficient(X, (((Z + K<9L>()) / K<2L>()) * ((K<6L>() / K<-1L>()) - (K<0L>() + X))))) \
  Q(3, 0, "/ 5 4", vm::diff(((X - Z) / (K<-4L>() / K<5L>())), Z)) \
  Q(3, 0, "* + 7 y + 9 * -6 / 1 y", vm::drop_dependent_terms(U, (((K<9L>() - U) - (K<6L>() / Y)) * ((K<7L>() + Y) + (K<0L>() / K<3L>()))))) \
  Q(3, 0, "* x x", vm::simplify(((X * X) + K<0L>()))) \
  Q(1, 0, "+ -12 * 12 x", vm::integrate(vm::make_interval((K<0L>() * Y), K<6L>()), (X + (X - K<2L>())), Z)) \
  Q(3, 0, "6", vm::expand(K<6L>())) \
  Q(1, 0, "1", vm::eval((Y / K<2L>()), vm::make_vector(K<5L>(), K<2L>()))) \
  Q(1, 1, "* x z", vm::expand(((X * Z) + (Z - Z)))) \
  Q(1, 0, "6", vm::eval(((X * X) * (K<3L>() / X)), vm::make_vector(K<2L>(), K<7L>(), K<9L>()))) \
  Q(3, 0, "0", vm::coefficient(X, (((X - Y) - (K<0L>() + X)) - ((Z + Y) - (Z - Z))))) \
  Q(0, 0, "+ 1 * 5 / 1 y", vm::diff((((X + Z) / (Y / K<5L>())) + X), X)) \
  Q(0, 0, "+ z * -1 y", vm::integrate(vm::make_interval((Z * K<1L>()), Y), K<-1L>(), X)) \
  Q(0, 0, "+ 4 * -1 y", vm::simplify((K<-1L>() * ((K<-1L>() + K<7L>()) + (K<-10L>() + Y))))) \
  Q(0, 0, "3", vm::eval((X * K<1L>()), vm::make_vector(K<3L>(), K<6L>(), K<4L>()))) \
  Q(0, 1, "0", vm::expand(((K<3L>() * (W * X)) * ((X - X) - (Y * K<0L>()))))) \
  Q(1, 0, "/ 8 3", vm::eval(((K<3L>() + K<5L>()) / X), vm::make_vector(K<3L>(), K<0L>()))) \
  Q(0, 0, "* y * / 1 + 1 x + 9 y", vm::substitute(K<-4L>(), (X - K<-1L>()), ((Y / K<-4L>()) * (K<9L>() + Y)))) \
  Q(4, 0, "* z * x x", vm::expand(vm::expand(((X * Z) * X)))) \
  Q(4, 0, "0", vm::coefficient(Y, ((X - K<2L>()) / K<-2L>()))) \
  Q(0, 0, "1", vm::simplify((K<-2L>() + K<3L>()))) \
  Q(0, 0, "+ * -7 * y y + * / -7 2 * z * z z + * / 7 2 z * 7 * z * y y", vm::integrate(vm::make_interval(K<1L>(), Z), (K<7L>() * ((Y * Y) - (X * Z))), X)) \
  Q(0, 0, "* / -3 7 * / 1 y * / 1 + / 15 2 z + -8 * 2 z", vm::simplify(((((Y * K<3L>()) / (K<-1L>() / K<1L>())) / (K<7L>() * (Y * Y))) * (((K<4L>() - K<12L>()) + (Z + Z)) / ((K<3L>() / K<-2L>()) + (Z + K<9L>())))))) \
  Q(4, 0, "+ -18 + * / 1 2 * y y + * 18 z + * 72 y + * / -1 3 * y * y * y y + * -1 * * y y * z z + * -6 * y z + * 6 * y * z z + * / -1 2 * z * y * y * y y * / 37 2 * z * y y", vm::integrate(vm::make_interval((Y + K<0L>()), K<6L>()), ((X + (Z * Y)) * ((Z - K<1L>()) + (X * Y))), X)) \
  Q(1, 0, "+ 2 + x * 2 w", vm::expand((((X + K<5L>()) - (X - W)) + ((W - K<5L>()) + (X - K<-2L>()))))) \
  Q(0, 0, "-16", vm::eval((((X + K<12L>()) - (Y - K<4L>())) - ((K<-2L>() * X) * K<4L>())), vm::make_vector(K<-4L>(), K<-4L>()))) \
  Q(1, 0, "+ / 2 21 * 262144 * x z", vm::substitute(Y, ((K<5L>() - X) * (X * K<0L>())), (((K<4L>() * X) * (K<65536L>() * Z)) - ((K<2L>() / K<7L>()) / K<-3L>())))) \
  Q(3, 0, "0", vm::substitute(Z, X, vm::diff(K<5L>(), Y))) \
  Q(1, 0, "9", vm::substitute(Y, ((K<5L>() / K<5L>()) / K<5L>()), K<9L>())) \
  Q(4, 0, "* -1 * z / 1 * y y", vm::diff(((X * X) + (Z / Y)), Y)) \
  Q(3, 0, "* / 1 3 * x + x y", vm::drop_dependent_terms(Z, ((Y + X) / (K<3L>() / X)))) \
  Q(3, 0, "* / 1 2 x", vm::simplify(((X / K<4L>()) + (X / K<4L>())))) \
  Q(2, 0, "+ * 3 / 1 x * / -1 4 x", vm::integrate(vm::make_interval((K<2L>() + K<1L>()), K<4L>()), ((K<3L>() / X) - (X / K<4L>())), Z)) \
  Q(3, 1, "* 9 z", vm::expand((Z * K<9L>()))) \
  Q(1, 0, "-69997", vm::eval(((K<-70000L>() + Z) - (K<5000000000L>() / K<5000000000L>())), vm::make_vector(K<9L>(), K<12L>(), K<4L>()))) \
  Q(0, 0, "-6", vm::substitute((X + K<3L>()), (K<3L>() - K<9L>()), (X + K<3L>()))) \
  Q(3, 0, "* -1 * / 1 * + y * 3 x + y * 3 x + -1 + x * -1 * x z", vm::diff(vm::expand((((X - K<1L>()) - (X * Z)) / (Y - (K<-3L>() * X)))), Y)) \
  Q(3, 0, "6", vm::coefficient(Y, (Y + (K<5L>() * Y)))) \
  Q(1, 0, "0", vm::diff((((K<-3L>() + X) + X) - Y), Z)) \
  Q(2, 0, "0", vm::drop_dependent_terms(Y, ((K<9L>() * X) * (K<0L>() + Y)))) \
  Q(4, 0, "+ 2 + * -8 z * 5 y", vm::simplify(((((Z - Z) * (K<0L>() * K<12L>())) - ((Y - Z) * (K<-4L>() * K<2L>()))) + (((Y * K<-2L>()) - (Y + K<-2L>())) - ((K<-1L>() * K<0L>()) * (Z * K<5L>())))))) \
  Q(0, 0, "0", vm::integrate(vm::make_interval((K<-2L>() * Z), K<3L>()), ((Y + X) - (Y + X)), Y)) \
  Q(2, 0, "+ 10 + y * y * / 1 + x z + 2 x", vm::simplify(((Y + ((K<0L>() + K<0L>()) - K<-10L>())) + (((X * K<1L>()) - K<-2L>()) / ((X + Z) / Y))))) \
  Q(2, 0, "+ -3 + * -3 w + * 3 x * 3 * w / 1 x", vm::integrate(vm::make_interval(X, W), ((K<3L>() / X) - K<3L>()), Y)) \
  Q(4, 0, "+ / 1 12 + * -1 x * / 1 12 y", vm::expand((((K<1L>() + Y) / K<12L>()) - X))) \
  Q(1, 0, "408", vm::eval((((Y - K<0L>()) * (X + K<9L>())) + ((Y * K<-3L>()) * (Z - X))), vm::make_vector(K<4L>(), K<12L>(), K<-3L>()))) \
  Q(1, 1, "* y + -6 z", vm::expand(((Z - K<6L>()) * (K<1L>() * Y)))) \
  Q(1, 0, "6", vm::eval((K<0L>() + Y), vm::make_vector(K<9L>(), K<6L>(), K<-10L>()))) \
  Q(0, 0, "x", vm::substitute((Y / K<-3L>()), X, (Y / K<-3L>()))) \
  Q(2, 0, "0", vm::diff((Y - (Y + X)), W)) \
  Q(0, 0, "0", vm::coefficient(Z, (K<-2L>() - (X - K<2L>())))) \
  Q(1, 0, "+ -2 y", vm::simplify((Y + K<-2L>()))) \
  Q(2, 0, "+ * -9 * z z * x * z z", vm::integrate(vm::make_interval(K<9L>(), X), (Z * Z), Y)) \
  Q(0, 0, "* + -2 z + x z", vm::simplify(((Z + K<-2L>()) * (X + Z)))) \
  Q(3, 0, "+ * -1 y + * -1 * y * y y + * -2 * y y + * -1 * x y * -1 * x * y y", vm::integrate(vm::make_interval((K<-1L>() - X), Y), ((Y / K<-1L>()) * (K<1L>() + Y)), Z)) \
  Q(3, 0, "+ * / 1 3 x * / 1 3 y", vm::expand(((Y + X) / K<3L>()))) \
  Q(2, 0, "/ -197 6", vm::eval((((K<-10L>() - X) - (Z - X)) + ((K<-2L>() * K<12L>()) - (K<-2L>() / K<12L>()))), vm::make_vector(K<0L>(), K<-3L>(), K<-1L>()))) \
  Q(2, 0, "+ 1 + * 11 y + * x / 1 y * -1 * x z", vm::substitute(Z, ((X / Y) - (X * Z)), (((Z - Y) + (K<12L>() * Y)) + K<1L>()))) \
  Q(0, 0, "0", vm::diff(vm::expand(((K<0L>() - K<3L>()) * (K<0L>() * X))), X)) \
  Q(1, 0, "* 12 y", vm::coefficient(X, (((W * Y) * (X * K<12L>())) / W))) \
  Q(2, 0, "5", vm::diff(((K<5L>() * Y) + (X * X)), Y)) \
  Q(0, 0, "0", vm::drop_dependent_terms(Y, ((K<5L>() * Y) * K<-2L>()))) \
  Q(1, 0, "+ * / -1 4 x * / -1 4 y", vm::simplify(((X + Y) / K<-4L>()))) \
  Q(4, 0, "+ * -2 * z * z z + * / 1 5 * y y + * 2 * y * z z * / -1 5 * y z", vm::integrate(vm::make_interval(Z, Y), (((Y / K<-10L>()) - (Z * Z)) * ((K<2L>() + K<-4L>()) + (Y - Y))), X)) \
  Q(1, 1, "* -11 y", vm::expand((Y * ((K<-1L>() * K<12L>()) + K<1L>())))) \
  Q(0, 0, "0", vm::diff(vm::expand((K<6L>() * Y)), X)) \
  Q(0, 0, "0", vm::coefficient(Y, ((X * X) / (Z / X)))) \
  Q(0, 0, "* / 1 z * / 1 + -5 y + / 3 10 * / 1 10 x", vm::simplify(((((K<0L>() / K<4L>()) * (Y / Z)) - ((K<-3L>() - X) / (K<4L>() + K<6L>()))) / (Z * (Y - (K<0L>() + K<5L>())))))) \
  Q(2, 0, "+ * / -2 5 z * / -1 5 * y z", vm::integrate(vm::make_interval((K<0L>() - Z), Z), ((Y - K<-2L>()) / K<-10L>()), X)) \
  Q(1, 0, "* / 1 5000000000 * y z", vm::simplify((((Z * Y) / K<1L>()) / K<5000000000L>()))) \
  Q(1, 0, "+ / -3 2 + * -2 w + * 3 x + * / -3 2 * x x + * / -1 2 * w w * 2 * x w", vm::integrate(vm::make_interval((X - W), K<1L>()), ((Y + X) + K<-2L>()), Y)) \
  Q(0, 1, "+ * -2 x * y z", vm::expand(((Y * Z) - (K<2L>() * X)))) \
  Q(2, 0, "648", vm::eval(((X + K<12L>()) * (X * X)), vm::make_vector(K<6L>()))) \
  Q(0, 0, "* 12 * y * / 1 + -51 z + 1 z", vm::substitute(X, ((K<3L>() - K<-4L>()) * (K<-10L>() - K<-1L>())), (((Z - K<-1L>()) * (Y * K<12L>())) / ((K<12L>() + Z) + X)))) \
  Q(1, 0, "0", vm::diff(vm::diff((K<6L>() + K<-3L>()), Y), Z)) \
  Q(1, 0, "* / 1 12 * / 1 x / 1 w", vm::substitute(Y, ((K<12L>() * X) * W), (K<1L>() / Y))) \
  Q(1, 0, "1", vm::diff((((K<1L>() - K<9L>()) * Y) + ((K<3L>() / Y) + (Z - K<0L>()))), Z)) \
  Q(2, 0, "1", vm::drop_dependent_terms(Y, K<1L>())) \
  Q(3, 0, "+ -2 + x * -5 y", vm::simplify(((X - K<2L>()) - (K<5L>() * Y)))) \
  Q(1, 0, "/ -1 4", vm::eval(((X / K<4L>()) / K<1L>()), vm::make_vector(K<-1L>()))) \
  Q(4, 1, "* 5 z", vm::expand(((Y - Y) + (K<5L>() * Z)))) \
  Q(1, 0, "6", vm::eval((K<6L>() + Z), vm::make_vector(K<0L>(), K<6L>(), K<0L>()))) \
  Q(1, 0, "z", vm::substitute(Y, (Y + X), Z)) \
  Q(2, 0, "0", vm::diff((X / K<7L>()), Y)) \
  Q(1, 0, "0", vm::coefficient(Y, ((Y - Y) + X))) \
  Q(0, 0, "0", vm::diff(((Z * (K<-2L>() - (X / K<9L>()))) / K<-4L>()), Y)) \
  Q(4, 0, "+ 9 + * 3 z + * 5 * y y + * 18 y * 5 * y z", vm::integrate(vm::make_interval((K<-3L>() - Z), Y), (K<3L>() + (K<5L>() * Y)), X)) \
  Q(0, 0, "+ * -1 y * 6 x", vm::simplify(((X * K<6L>()) - Y))) \
  Q(0, 0, "+ 90 + * 4 y * / -1 2 * y y", vm::integrate(vm::make_interval(Y, K<-10L>()), (X + K<-4L>()), X)) \
  Q(0, 0, "+ x * -1 y", vm::expand((X - Y))) \
  Q(0, 0, "/ -9 4", vm::eval(((X - K<9L>()) / (K<-2L>() + K<6L>())), vm::make_vector(K<0L>()))) \
  Q(1, 0, "* + 2 + y * -1 z + 1 + x + z * -1 y", vm::substitute(U, (X - (X + Y)), ((K<2L>() - (Z - Y)) * ((U + Z) + (X + K<1L>()))))) \
  Q(3, 0, "/ -2 3", vm::diff((K<-2L>() / (K<3L>() / X)), X)) \
  Q(1, 0, "+ -36 * 6 z", vm::integrate(vm::make_interval(K<6L>(), Z), (K<3L>() + K<3L>()), X)) \
  Q(3, 0, "* x * + y * -1 x + 1 + * -1 z * / -1 4 x", vm::expand((((X / K<-4L>()) - (Z + K<-1L>())) * ((K<1L>() * X) * (Y - X))))) \
  Q(1, 0, "/ 8 9", vm::eval(((Z + K<-10L>()) * (X / K<9L>())), vm::make_vector(K<-1L>(), K<-2L>(), K<2L>()))) \
  Q(1, 1, "* + -4 x + x * -1 w", vm::expand(((K<-4L>() + X) * (X - W)))) \
  Q(2, 0, "0", vm::eval((K<0L>() / K<1L>()), vm::make_vector(K<-4L>(), K<1L>()))) \
  Q(4, 0, "+ 1 * / 1 4 x", vm::substitute(Y, K<1L>(), ((X / K<4L>()) + K<1L>()))) \
  Q(2, 0, "+ -3 * -1 x", vm::diff(((((K<0L>() / K<-2L>()) - (Z / K<6L>())) + (K<1L>() - (Y + Y))) + (((K<7L>() - Y) - (X * Y)) - ((K<4L>() - K<1L>()) - (K<-10L>() + K<5L>())))), Y)) \
  Q(4, 0, "0", vm::coefficient(Y, (X + (K<3L>() / X)))) \
  Q(0, 0, "0", vm::diff(((Y + X) + (X * X)), Z)) \
  Q(0, 0, "* y z", vm::drop_dependent_terms(X, (Y * Z))) \
  Q(1, 0, "* -1 * * z z + 3 z", vm::simplify(((((Z - K<-4L>()) - (Y / Y)) * Z) * (((K<0L>() * Z) - Z) / ((K<0L>() + X) / X))))) \
  Q(3, 0, "+ 98 + * -14 x + * / -1 2 * z z * x z", vm::integrate(vm::make_interval(Z, (K<5L>() + K<9L>())), (Y - X), Y))
#endif
#if CTM_SLICE == 4
#define CTM_CASES(Q) \
  Q(1, 0, "* / -5 2 y", vm::simplify(((K<5L>() * Y) / K<-2L>()))) \
  Q(0, 0, "+ * / -27 4 x * / 3 4 y", vm::integrate(vm::make_interval(Y, (X * K<9L>())), (K<-3L>() / K<4L>()), Z)) \
  Q(1, 1, "+ * -1 z * z + -4 * -1 x", vm::expand((((K<1L>() * Z) * (K<-4L>() - X)) - Z))) \
  Q(1, 0, "40", vm::eval(((K<5L>() * Y) + (K<5L>() * Y)), vm::make_vector(K<5L>(), K<4L>(), K<3L>()))) \
  Q(2, 0, "+ * / 28 3 y * / 70 9 z", vm::substitute(Y, Y, (((Y - Y) + (K<7L>() / K<9L>())) * ((K<12L>() * Y) - (Z * K<-10L>()))))) \
  Q(0, 0, "+ * x / 1 y * / 1 y + x * -1 w", vm::simplify(vm::diff(((X / Y) * (X - W)), X))) \
  Q(1, 0, "* -1 x", vm::substitute(Y, Z, (K<0L>() - X))) \
  Q(3, 0, "* -3 / 1 * x x", vm::diff(((K<3L>() / X) / K<1L>()), X)) \
  Q(1, 0, "-1", vm::coefficient(W, (((W - W) + K<12L>()) + ((K<1L>() + Y) + (K<7L>() - W))))) \
  Q(0, 0, "0", vm::diff((K<-2L>() + X), Z)) \
  Q(0, 0, "* / 1 3 * x * x x", vm::drop_dependent_terms(Y, ((X * X) / (K<3L>() / X)))) \
  Q(1, 0, "y", vm::simplify(Y)) \
  Q(2, 0, "-17", vm::eval((((X * Y) * K<-4L>()) + ((X - K<-4L>()) - (X + K<9L>()))), vm::make_vector(K<1L>(), K<3L>()))) \
  Q(1, 1, "* -48 * x z", vm::expand(((X * K<12L>()) * (Z * K<-4L>())))) \
  Q(0, 0, "0", vm::eval((K<0L>() / K<-4L>()), vm::make_vector(K<-3L>()))) \
  Q(0, 0, "1", vm::substitute(U, Y, (((Y * K<0L>()) * (K<3L>() + U)) + ((Z / Z) / K<1L>())))) \
  Q(3, 0, "0", vm::diff(vm::substitute(Y, ((Y * K<-4L>()) * (Y - K<9L>())), (K<-3L>() + K<-4L>())), Z)) \
  Q(2, 0, "+ y z", vm::substitute(X, (Y - Y), (((Z - X) - (X + X)) + Y))) \
  Q(1, 0, "0", vm::diff(((K<3L>() / X) + K<0L>()), W)) \
  Q(1, 0, "+ -6 * 2 z", vm::drop_dependent_terms(X, (((Z + Z) / K<1L>()) - K<6L>()))) \
  Q(0, 0, "z", vm::simplify(Z)) \
  Q(2, 0, "+ / -49 2 + * -7 x * / 3 2 * x x", vm::integrate(vm::make_interval(K<7L>(), X), ((Y + X) * K<1L>()), Y)) \
  Q(0, 0, "+ 7 x", vm::expand((X - (K<-10L>() + K<3L>())))) \
  Q(2, 0, "-12", vm::eval((X + K<-2L>()), vm::make_vector(K<-10L>(), K<5L>(), K<-4L>()))) \
  Q(2, 1, "+ 5 + y + * 2 x * -1 * * z z + 6 * -1 z", vm::expand((((X + Y) + (X + K<5L>())) - ((Z * Z) * (K<6L>() - Z))))) \
  Q(1, 0, "4", vm::eval((K<-2L>() * K<-2L>()), vm::make_vector(K<65536L>(), K<-3L>()))) \
  Q(3, 0, "+ 5 * / 1 2 y", vm::substitute(X, Y, (((Y - Y) - (K<-10L>() - Y)) / K<2L>()))) \
  Q(1, 0, "0", vm::substitute(X, (K<1L>() / K<-1L>()), vm::diff(K<-1L>(), Y))) \
  Q(3, 0, "2", vm::substitute(Z, Y, (K<2L>() / K<1L>()))) \
  Q(3, 0, "+ * / 1 7 y + * / -1 7 * / 1 x + 5 * -1 z * / 1 * x x * + 5 * -1 z + z * / 1 7 x", vm::diff(((Y + ((K<5L>() - Z) / (K<0L>() - X))) * (((X / K<7L>()) - (Z - Z)) + Z)), X)) \
  Q(1, 0, "0", vm::coefficient(Z, (K<1L>() + (Y + X)))) \
  Q(4, 0, "+ / -1 2 * / -1 4 z", vm::diff(((((X + X) - (X / X)) + ((Y + X) * Z)) / K<-4L>()), X)) \
  Q(2, 0, "4", vm::drop_dependent_terms(X, (K<-2L>() * (X - K<2L>())))) \
  Q(3, 0, "* 15 y", vm::simplify((K<3L>() * (K<5L>() * Y)))) \
  Q(3, 0, "+ / -9 2 * / 1 2 * y y", vm::integrate(vm::make_interval(K<3L>(), Y), (X + K<0L>()), X)) \
  Q(0, 0, "+ * 3 y * / -11 10 z", vm::simplify(((Y - Z) + (Y + ((Z / K<-10L>()) + (Y + K<0L>())))))) \
  Q(1, 0, "+ 1 + * / 1 4 x * / 1 4 y", vm::integrate(vm::make_interval((K<-4L>() - X), Y), ((K<-3L>() / K<-4L>()) / K<3L>()), Z)) \
  Q(3, 0, "+ 3 * 5 y", vm::expand(((K<5L>() * Y) + K<3L>()))) \
  Q(1, 0, "4", vm::eval((((K<1L>() * K<2L>()) - (K<12L>() - X)) / K<-2L>()), vm::make_vector(K<2L>()))) \
  Q(0, 1, "* y y", vm::expand((Y * Y))) \
  Q(3, 0, "-48", vm::eval((((Y - X) * (Y - X)) * ((X / X) - (X - Y))), vm::make_vector(K<2L>(), K<-2L>()))) \
  Q(0, 0, "+ * z z * -1 * y y", vm::substitute(X, Y, ((Z * Z) - (X * X)))) \
  Q(2, 0, "0", vm::substitute(X, K<12L>(), vm::simplify(((K<0L>() * Y) * (X / K<-3L>()))))) \
  Q(0, 0, "0", vm::coefficient(Z, (K<0L>() + (X / K<4L>())))) \
  Q(2, 0, "+ * -8 * x / 1 + / 3 10 + x y * 4 * * x x / 1 * + / 3 10 + x y + / 3 10 + x y", vm::diff((((X * X) * K<-4L>()) / ((K<-3L>() / K<-10L>()) + (X + Y))), X)) \
  Q(4, 0, "z", vm::drop_dependent_terms(Y, Z)) \
  Q(1, 0, "* / 1 + -12 + x * -1 * x z + -20 z", vm::simplify((((Z - K<0L>()) - (K<-10L>() * K<-2L>())) / ((X - K<12L>()) - (Z * X))))) \
  Q(3, 0, "+ * / 49 12 * z * z z + * / -49 12 * z * y y + * / -7 12 * y * z * z z * / 7 12 * z * y * y y", vm::integrate(vm::make_interval(Z, Y), ((Y - (K<7L>() + K<0L>())) * ((X * Z) * (K<7L>() / K<6L>()))), X)) \
  Q(4, 0, "* 6 * + -3 y + -2 * -1 x", vm::simplify((K<6L>() * ((K<-2L>() - X) * (K<-3L>() + Y))))) \
  Q(4, 0, "0", vm::eval(((X / K<4L>()) * K<0L>()), vm::make_vector(K<6L>(), K<1L>(), K<3L>()))) \
  Q(4, 0, "* y * / 1 x + * -5 x * 5 * y / 1 x", vm::substitute(Y, ((X / K<-1L>()) + (Y / X)), ((Y + X) * (K<5L>() * Y)))) \
  Q(2, 0, "x", vm::expand(vm::simplify(X))) \
  Q(0, 0, "1", vm::coefficient(Y, (X + Y))) \
  Q(0, 0, "+ 1 * x * + x * -1 z + -1 + x y", vm::simplify(((((X - Z) * X) * ((K<-1L>() + Y) + X)) - K<-1L>()))) \
  Q(4, 0, "-28", vm::eval(((K<1L>() * K<-10L>()) - (Y + K<6L>())), vm::make_vector(K<1L>(), K<12L>(), K<-3L>()))) \
  Q(3, 1, "* 2 * x y", vm::expand(((X + (X - K<0L>())) * Y))) \
  Q(3, 0, "/ 1 35000", vm::eval((K<-2L>() / K<-70000L>()), vm::make_vector(K<-3L>()))) \
  Q(4, 0, "* + -10 z + y * / 1 6 z", vm::substitute(U, (Z / K<6L>()), ((U + Y) * (Z + K<-10L>())))) \
  Q(3, 0, "0", vm::diff(vm::expand(K<1L>()), X)) \
  Q(4, 0, "* y y", vm::substitute(K<1L>(), Y, (K<1L>() * Y))) \
  Q(4, 0, "+ -4 z", vm::diff((((K<-4L>() + Z) * (X + K<6L>())) + Z), X)) \
  Q(0, 0, "1", vm::coefficient(U, (((X * K<4L>()) - (K<5L>() - U)) + ((Z - X) - (U * K<0L>()))))) \
  Q(1, 0, "100001", vm::diff(((K<100000L>() * Y) + Y), Y)) \
  Q(0, 0, "-4", vm::drop_dependent_terms(Z, K<-4L>())) \
  Q(1, 0, "* -20 * / 1 w * / 1 + -4 y + x y", vm::simplify((K<-10L>() / (((Y - K<4L>()) * (W * X)) / ((X + X) * (Y + X)))))) \
  Q(3, 0, "+ * / -5 2 * z z + * / 7 2 * x x * -1 * x z", vm::integrate(vm::make_interval(Z, X), (X + (K<5L>() * Y)), Y)) \
  Q(0, 0, "+ 2 * -1 x", vm::expand(((K<-2L>() * X) + (X - K<-2L>())))) \
  Q(0, 0, "/ -81 4", vm::eval(((K<5L>() * Y) - (X / K<4L>())), vm::make_vector(K<1L>(), K<-4L>()))) \
  Q(2, 1, "+ -12 + * -1 y + * 2 x * x z", vm::expand((((X * K<2L>()) - Y) + ((X * Z) - (K<2L>() - K<-10L>()))))) \
  Q(0, 0, "-7", vm::eval((X * K<-1L>()), vm::make_vector(K<7L>(), K<12L>()))) \
  Q(2, 0, "+ / 28 3 * / 4 3 x", vm::substitute(U, ((Z / K<-3L>()) * (K<-1L>() + K<0L>())), (((Z + U) * (K<7L>() + X)) / Z))) \
  Q(1, 0, "+ / -1 3 * / -1 3 y", vm::expand(vm::simplify(((Y + K<1L>()) / K<-3L>())))) \
  Q(0, 0, "+ 32 * 36 / 1 x", vm::substitute(X, ((K<9L>() / X) + (K<4L>() + K<4L>())), ((X * K<5L>()) - X))) \
  Q(3, 0, "2", vm::diff((X + X), X)) \
  Q(0, 0, "-1", vm::coefficient(Y, ((Y / K<-1L>()) - (W / K<-1L>())))) \
  Q(0, 0, "0", vm::diff((K<-2L>() * (Y + X)), Z)) \
  Q(1, 0, "* y y", vm::drop_dependent_terms(X, (Y * (Y + X)))) \
  Q(4, 0, "* / 1 4 x", vm::simplify(((X / K<4L>()) * K<1L>()))) \
  Q(1, 0, "+ -36 + * -3 y * 6 x", vm::integrate(vm::make_interval((K<12L>() + Y), (X + X)), (K<0L>() + K<3L>()), Z)) \
  Q(4, 0, "+ 10 + x + * -2 / 1 z * -1 * / 1 z + 4 x", vm::simplify((((X + K<4L>()) / (K<0L>() - Z)) + ((K<-2L>() / Z) + (X - K<-10L>()))))) \
  Q(4, 0, "+ * / 1 3 * x * x x * / -4 3 * z * x * x x", vm::integrate(vm::make_interval((K<3L>() * Z), (K<1L>() - Z)), ((X * X) / (K<3L>() / X)), Y)) \
  Q(3, 0, "+ * 6 x * / -3 2 y", vm::expand((((X * K<6L>()) - (Y / K<2L>())) - Y))) \
  Q(2, 0, "/ 79 10", vm::eval(((K<-4L>() * Z) - (K<-1L>() / K<-10L>())), vm::make_vector(K<-2L>(), K<0L>(), K<-2L>()))) \
  Q(2, 0, "* -13 * / 1 x / 1 + 4 + z * -1 x", vm::substitute(U, (Z - X), (((K<-1L>() / X) - (K<12L>() / X)) / ((K<1L>() + U) + K<3L>())))) \
  Q(4, 0, "4", vm::simplify(vm::simplify(K<4L>()))) \
  Q(4, 0, "z", vm::coefficient(Z, (Z * Z))) \
  Q(0, 0, "0", vm::diff((K<3L>() * (K<3L>() / K<5L>())), Z)) \
  Q(1, 0, "* -3 * x / 1 * z z", vm::drop_dependent_terms(Y, (((X / Z) / K<-4L>()) * ((K<9L>() + K<3L>()) / Z)))) \
  Q(2, 0, "+ / 20 9 * / 1 9 z", vm::simplify((((K<5L>() + Z) + (K<6L>() + K<9L>())) / K<9L>()))) \
  Q(1, 0, "+ / 10 9 * / -4 3 w", vm::integrate(vm::make_interval(K<5L>(), K<7L>()), (((K<4L>() - K<-1L>()) - (K<6L>() * W)) / K<9L>()), X)) \
  Q(0, 0, "/ -3 4", vm::expand(((K<3L>() / K<12L>()) - K<1L>()))) \
  Q(1, 0, "/ -28 3", vm::eval(((X / K<-3L>()) - X), vm::make_vector(K<7L>(), K<6L>()))) \
  Q(2, 0, "* / 1 4 * x x", vm::substitute(U, X, (((U * U) - (Z - Z)) / K<4L>()))) \
  Q(4, 0, "+ * / 1 6 y + * / 1 6 z * / -1 6 * y z", vm::simplify(vm::simplify((((Y + Z) - (Z * Y)) / K<6L>())))) \
  Q(3, 0, "* / 16384 3 * x * z / 1 y", vm::substitute(Z, Z, (((Z * K<65536L>()) / Y) * ((X / K<6L>()) / (K<-2L>() / K<-1L>()))))) \
  Q(0, 0, "0", vm::diff((((X / K<12L>()) * (K<-3L>() - K<1L>())) / ((Y - K<-4L>()) / K<-3L>())), Z)) \
  Q(0, 0, "/ 2 7", vm::coefficient(X, (((Y * K<7L>()) + (X + X)) / K<7L>()))) \
  Q(1, 0, "+ -1 y", vm::simplify((Y - K<1L>()))) \
  Q(0, 0, "+ -3 + x + * -1 y + * -1 * y y + * 3 * y / 1 x * 3 * / 1 x * y y", vm::integrate(vm::make_interval((Y * Y), (X - Y)), (K<1L>() - (K<3L>() / X)), Z)) \
  Q(4, 0, "-2", vm::expand(K<-2L>())) \
  Q(3, 0, "/ 5 6", vm::eval(((K<-3L>() + Y) / (Y - Z)), vm::make_vector(K<5L>(), K<-2L>(), K<4L>()))) \
  Q(4, 1, "* 2 * x * * y y * z * z z", vm::expand((((X * Y) * (K<-1L>() * K<-2L>())) * ((Y * Z) * (Z * Z))))) \
  Q(2, 0, "-9", vm::eval((((X + K<3L>()) + (X - K<1L>())) - ((K<3L>() - K<-2L>()) / K<1L>())), vm::make_vector(K<-3L>(), K<0L>(), K<-10L>()))) \
  Q(0, 0, "+ 21 * -1 y", vm::substitute(X, (K<4L>() + K<1L>()), (((K<-1L>() * K<0L>()) * (K<2L>() * Y)) + ((X + K<12L>()) - (Y + K<-4L>()))))) \
  Q(3, 0, "* -4 * x / 1 * y y", vm::diff(((X / Y) * (K<0L>() - K<-4L>())), Y)) \
  Q(0, 0, "1", vm::drop_dependent_terms(Y, ((Y * Z) + K<1L>()))) \
  Q(2, 0, "+ 11 * -1 * x x", vm::simplify((((X * X) + (K<1L>() - K<12L>())) / K<-1L>()))) \
  Q(4, 0, "+ * -5 y + * 5 z + * / -1 2 * y y * / 1 2 * y z", vm::integrate(vm::make_interval(Z, Y), (((K<-1L>() + K<9L>()) - (K<5L>() / K<5L>())) - ((Y / K<2L>()) + K<12L>())), X)) \
  Q(4, 0, "* 4 * / 1 x * + 3 y + 3 + * -1 y * -1 z", vm::simplify((((K<3L>() - Z) - Y) * ((Y - K<-3L>()) / (X / K<4L>()))))) \
  Q(4, 0, "+ 4 * -2 x", vm::integrate(vm::make_interval(X, K<2L>()), (K<1L>() + K<1L>()), Y)) \
  Q(1, 1, "0", vm::expand((((X * K<9L>()) * (Y * Y)) * ((K<-2L>() - Y) * (Z - Z))))) \
  Q(4, 0, "1", vm::simplify(vm::diff(((Z - K<-10L>()) + (X / X)), Z))) \
  Q(0, 0, "0", vm::coefficient(Y, (((K<-3L>() - K<-2L>()) + (X / K<3L>())) / K<2L>()))) \
  Q(1, 0, "0", vm::diff((K<-2L>() + (K<12L>() - K<2L>())), Y)) \
  Q(0, 0, "-20", vm::drop_dependent_terms(X, ((K<-10L>() * (K<0L>() - K<-4L>())) / K<2L>()))) \
  Q(3, 0, "* x * x * x x", vm::simplify(((X * X) * (X * X)))) \
  Q(1, 0, "* 8 y", vm::integrate(vm::make_interval(K<-10L>(), K<-2L>()), Y, X)) \
  Q(0, 0, "* / 1 4 * x * x x", vm::simplify(((X * X) * (X / K<4L>())))) \
  Q(0, 0, "/ -13 6", vm::eval(((Y / K<6L>()) - (K<4L>() + Z)), vm::make_vector(K<4L>(), K<5L>(), K<-1L>()))) \
  Q(0, 1, "+ * y y * -1 y", vm::expand((K<-1L>() * ((Y + K<0L>()) - (Y * Y))))) \
  Q(2, 0, "0", vm::eval(((K<5L>() * Y) * K<0L>()), vm::make_vector(K<0L>(), K<5L>()))) \
  Q(0, 0, "0", vm::substitute(X, (K<4L>() / Z), ((X - K<2L>()) * K<0L>()))) \
  Q(2, 0, "9", vm::simplify(vm::expand(K<9L>()))) \
  Q(1, 0, "+ x y", vm::substitute(Z, (Y + X), Z)) \
  Q(1, 0, "1", vm::diff(((K<-4L>() - Y) - (Z / K<-1L>())), Z)) \
  Q(0, 0, "0", vm::drop_dependent_terms(Y, Y)) \
  Q(1, 0, "+ 3 * x * / 1 w + 7 y", vm::simplify((K<3L>() + (X * ((K<7L>() + Y) / W))))) \
  Q(0, 0, "+ * -5 z * 5 x", vm::integrate(vm::make_interval(Z, X), K<5L>(), Y)) \
  Q(4, 0, "* x * / 1 + y * -1 z + * / 1 5 x * z / 1 x", vm::expand((((X / K<5L>()) + (Z / X)) / ((Y - Z) / X)))) \
  Q(2, 0, "30000000000", vm::eval(((Y * Z) + Y), vm::make_vector(K<-3L>(), K<5000000000L>(), K<5L>()))) \
  Q(4, 0, "+ * 100 x * 200 y", vm::substitute(U, (Y * K<-2L>()), (K<-10L>() * (K<-10L>() * (X - U))))) \
  Q(2, 0, "-2", vm::substitute(Z, (X - Z), vm::expand(K<-2L>()))) \
  Q(0, 0, "* 12 x", vm::substitute(Y, (K<-4L>() + K<0L>()), (X * K<12L>()))) \
  Q(3, 0, "+ / 19 9 * / -2 9 y", vm::diff(((((Y - K<12L>()) * (K<7L>() - Y)) / K<9L>()) + K<1L>()), Y)) \
  Q(2, 0, "0", vm::coefficient(Y, W)) \
  Q(1, 0, "+ * -1 * / 1 y / 1 + y z * z * / 1 y / 1 * + y z + y z", vm::diff((((K<5L>() + Y) * (X * Y)) - ((Z / Y) / (Z + Y))), Z)) \
  Q(1, 0, "* -8 / 1 y", vm::drop_dependent_terms(X, (((Z / Z) * K<-4L>()) / (Y / K<2L>())))) \
  Q(3, 0, "* 4 * y * x x", vm::simplify((K<1L>() * (((K<0L>() - X) * (Y * K<-4L>())) * X)))) \
  Q(0, 0, "0", vm::integrate(vm::make_interval((K<12L>() - Y), Z), (X * K<0L>()), X)) \
  Q(0, 0, "* y / 1 + -2 x", vm::simplify((Y / (X - K<2L>())))) \
  Q(0, 0, "-50", vm::eval(((X * K<2L>()) * (K<0L>() - X)), vm::make_vector(K<5L>()))) \
  Q(1, 1, "0", vm::expand(((K<0L>() * K<0L>()) * K<6L>()))) \
  Q(1, 0, "2", vm::eval(((K<0L>() - (K<7L>() / X)) + ((X * K<5L>()) - (X + K<1L>()))), vm::make_vector(K<-1L>()))) \
  Q(3, 0, "0", vm::substitute(X, (K<0L>() * Y), ((Y + X) * X))) \
  Q(0, 0, "/ -11 13", vm::substitute(Z, K<1L>(), vm::substitute(X, K<9L>(), (((X - K<7L>()) / (K<4L>() + X)) - Z)))) \
  Q(3, 0, "* 5 * y y", vm::drop_dependent_terms(X, (Y * (K<5L>() * Y)))) \
  Q(0, 0, "0", vm::simplify((K<7L>() * ((K<3L>() * Y) * K<0L>())))) \
  Q(2, 0, "0", vm::integrate(vm::make_interval((Y - K<-1L>()), X), (K<0L>() * (X / K<4L>())), Z)) \
  Q(2, 1, "-4", vm::expand(K<-4L>())) \
  Q(2, 0, "13", vm::eval((K<6L>() + ((K<7L>() - Y) / (Z / Z))), vm::make_vector(K<6L>(), K<0L>(), K<7L>()))) \
  Q(2, 0, "* 4 * / 1 x + -4 z", vm::substitute(Y, ((K<-2L>() + Z) - (X - K<-2L>())), ((Y + X) / (X / K<4L>())))) \
  Q(1, 0, "0", vm::expand(vm::diff((K<-1L>() + Y), X))) \
  Q(3, 0, "0", vm::substitute(Z, Y, (((K<1L>() * Z) + (K<5L>() + Y)) * ((K<-10L>() * X) * K<0L>())))) \
  Q(2, 0, "+ * -1 * / 1 * + -19 z + -19 z + y * y / 1 z * -1 * y * / 1 * z z / 1 + -19 z", vm::diff(((((Y / Z) + (Z - Z)) + Y) / ((K<1L>() * (Z - K<7L>())) - K<12L>())), Z)) \
  Q(3, 0, "+ -2 y", vm::drop_dependent_terms(X, (K<-2L>() + (Y + X)))) \
  Q(0, 0, "+ 4 * w + -1 * -1 y", vm::simplify(((W * (K<-1L>() - Y)) + K<4L>()))) \
  Q(0, 0, "+ * 3 x * x z", vm::integrate(vm::make_interval(K<-3L>(), Z), X, Y)) \
  Q(0, 0, "+ * x y + * -1 * z / 1 x * 5 * / 1 z + x z", vm::expand((((Y * X) - (Z / X)) + ((X + Z) / (Z / K<5L>()))))) \
  Q(1, 0, "-4", vm::eval(((K<-10L>() + X) + (X * Z)), vm::make_vector(K<6L>(), K<2L>(), K<0L>()))) \
  Q(0, 1, "0", vm::expand(((W - W) * Y))) \
  Q(2, 0, "y", vm::expand(vm::substitute(W, Y, W))) \
  Q(4, 0, "* 2 x", vm::substitute((K<-4L>() / (X - K<2L>())), X, ((K<-4L>() / (X - K<2L>())) + X))) \
  Q(2, 0, "+ / 1 z * -1 * / 1 * z z + -2 z", vm::diff(((Z + K<-2L>()) / Z), Z)) \
  Q(2, 0, "0", vm::coefficient(W, (K<-2L>() - K<3L>()))) \
  Q(0, 0, "0", vm::diff((K<0L>() - ((Y - K<-4L>()) + (K<5L>() - Y))), Z)) \
  Q(3, 0, "0", vm::integrate(vm::make_interval(X, X), X, Z)) \
  Q(1, 0, "* 5 x", vm::simplify(((X / K<1L>()) / (K<1L>() / K<5L>())))) \
  Q(0, 0, "0", vm::integrate(vm::make_interval(X, X), (K<3L>() + (X / K<4L>())), Y)) \
  Q(0, 0, "+ 13 + z * z z", vm::substitute(Z, Z, ((K<3L>() + (Z * Z)) + (Z - K<-10L>())))) \
  Q(0, 0, "+ 3 x", vm::simplify(vm::substitute((K<-6L>() * (Y * Y)), (X - K<-3L>()), (K<-6L>() * (Y * Y))))) \
  Q(1, 0, "+ 3 + * -1 x * 2 z", vm::substitute((X * X), ((K<-3L>() / K<-1L>()) - (Z * K<-2L>())), ((X * X) - X))) \
  Q(4, 0, "+ / -10 3 z", vm::diff((((X * K<-3L>()) - (Z + K<2L>())) + ((X * Z) + (X / K<-3L>()))), X)) \
  Q(0, 0, "+ * 3 / 1 x * / -1 4 x", vm::drop_dependent_terms(Y, ((K<3L>() / X) - (X / K<4L>())))) \
  Q(0, 0, "+ 7 * / -7 6 y", vm::simplify(((K<7L>() - Y) - (Y / K<6L>())))) \
  Q(3, 0, "+ * / -1 6 * z z * / 1 6 * x x", vm::integrate(vm::make_interval(Z, X), (Y / K<3L>()), Y)) \
  Q(3, 0, "-2", vm::simplify(K<-2L>())) \
  Q(0, 0, "* 4 x", vm::integrate(vm::make_interval(X, (X + X)), (K<3L>() + K<1L>()), W)) \
  Q(2, 0, "1", vm::expand((Y / Y))) \
  Q(1, 0, "0", vm::eval((X * X), vm::make_vector(K<0L>()))) \
  Q(1, 1, "* -10 * y * x * x x", vm::expand((X * ((K<-10L>() * X) * (X * Y))))) \
  Q(4, 0, "-1", vm::eval(((K<-2L>() / X) + X), vm::make_vector(K<1L>()))) \
  Q(2, 0, "+ 1 * 5 / 1 y", vm::substitute(Z, X, ((K<3L>() + K<-2L>()) + (K<5L>() / Y)))) \
  Q(0, 0, "0", vm::diff(vm::expand((Y + (K<-2L>() + (Y - K<4L>())))), Z)) \
  Q(0, 0, "/ 1 3", vm::coefficient(Y, ((Y + X) / K<3L>()))) \
  Q(0, 0, "0", vm::diff((K<-2L>() + K<1L>()), Y)) \
  Q(4, 0, "+ * / -1 4 * x x * / 1 4 * z z", vm::integrate(vm::make_interval(Z, X), (Y / K<-2L>()), Y)) \
  Q(3, 0, "+ / 9 2 * x + x z", vm::simplify(((K<9L>() + ((X + X) * (X + Z))) / K<2L>()))) \
  Q(3, 0, "+ * / -609 8 * x x + * / 101 56 * y y * / -7 4 * x y", vm::integrate(vm::make_interval(Y, (K<7L>() * X)), (((K<-3L>() * Z) + (Z / K<7L>())) - ((Y + Z) / K<4L>())), Z)) \
  Q(1, 0, "+ 6 + * / 1 2 z * -1 y", vm::expand((((Z / K<2L>()) + (K<6L>() * K<2L>())) - ((K<6L>() - Z) + (Z + Y))))) \
  Q(3, 0, "-46", vm::eval((((K<9L>() - K<0L>()) * (X - Y)) - Y), vm::make_vector(K<-4L>(), K<1L>()))) \
  Q(3, 1, "* -1 z", vm::expand((Y - (Z + Y)))) \
  Q(0, 0, "-3", vm::eval(((Y - K<9L>()) + (X + K<4L>())), vm::make_vector(K<1L>(), K<1L>(), K<1L>()))) \
  Q(1, 0, "+ 4 * -1 * + 1 x + y z", vm::substitute(U, X, (K<4L>() - ((U + K<1L>()) * (Y + Z))))) \
  Q(1, 0, "1", vm::diff(((X - K<0L>()) - (X - Y)), Y)) \
  Q(4, 0, "+ -2 * -1 y", vm::drop_dependent_terms(U, ((K<0L>() + K<-2L>()) + (U - Y)))) \
  Q(0, 0, "* / 1 y + x y", vm::simplify(((Y + X) / Y))) \
  Q(0, 0, "+ * / 1 2 * w * w w + * -1 * x * w w * / 1 3 * x w", vm::integrate(vm::make_interval((X - X), W), (((Y - X) * (W / K<1L>())) - (X / K<-3L>())), Y)) \
  Q(0, 0, "* / 1 + x y + -2 x", vm::expand(((X - K<2L>()) / (Y + X)))) \
  Q(1, 0, "4", vm::eval((((K<4L>() * K<9L>()) - (K<0L>() * Z)) / ((K<6L>() - X) + (K<0L>() / K<3L>()))), vm::make_vector(K<-3L>(), K<4L>(), K<-10L>()))) \
  Q(2, 0, "0", vm::substitute(Y, ((Z - X) / Y), ((K<5000000000L>() * (K<65536L>() * K<1L>())) * K<0L>()))) \
  Q(1, 0, "/ -11 12", vm::diff(((Z * (X - (Y - Y))) + ((Y / K<12L>()) + ((X - Y) * (X / X)))), Y)) \
  Q(3, 0, "+ 2 z", vm::drop_dependent_terms(U, (((K<-1L>() - U) + (Z + K<3L>())) - U))) \
  Q(0, 0, "+ x * -3 / 1 x", vm::simplify((X - (K<3L>() / X)))) \
  Q(4, 0, "+ * / -1 3 * z * z z + * / 1 3 * y y + * / -1 3 * y * z z * / 1 3 * y z", vm::integrate(vm::make_interval(Y, (Z * Z)), ((Y + Z) / K<-3L>()), X)) \
  Q(1, 0, "+ 1 + x * 4 y", vm::expand(((X + K<1L>()) - (K<-4L>() * Y)))) \
  Q(1, 0, "-25", vm::eval(((K<5L>() - Y) - (Y * Y)), vm::make_vector(K<3L>(), K<5L>(), K<1L>()))) \
  Q(0, 0, "* 2 * y + -10 * 5 x", vm::substitute(U, X, ((Y + Y) * ((K<-10L>() - X) + (U * K<6L>()))))) \
  Q(2, 0, "* 2 x", vm::expand(vm::substitute(Y, K<-4L>(), (X + X)))) \
  Q(1, 0, "* 2 * z + 3 * -1 z", vm::substitute(X, ((Y + K<1L>()) * (Z - Y)), ((K<3L>() - Z) * (Z + Z)))) \
  Q(2, 0, "0", vm::diff((K<1L>() - K<-2L>()), Y)) \
  Q(1, 0, "0", vm::coefficient(X, K<3L>())) \
  Q(0, 0, "-2", vm::diff(((K<-3L>() - X) - (Y + Y)), Y)) \
  Q(2, 0, "0", vm::integrate(vm::make_interval(X, X), ((X * (Y * K<6L>())) / K<5L>()), Z)) \
  Q(1, 1, "* -1 * x z", vm::expand(((K<0L>() * K<6L>()) - (Z * X)))) \
  Q(4, 0, "/ -71 45", vm::eval((((X / X) / K<5L>()) - ((X * X) / K<9L>())), vm::make_vector(K<-4L>()))) \
  Q(4, 0, "3", vm::substitute(K<0L>(), (K<9L>() - K<6L>()), K<0L>())) \
  Q(3, 0, "* 13 * y y", vm::substitute(X, (K<1L>() + K<12L>()), vm::substitute(K<-3L>(), (Y * Y), (X * K<-3L>())))) \
  Q(1, 0, "0", vm::coefficient(Z, (X * K<1L>()))) \
  Q(0, 0, "+ 1 x", vm::diff((W * (K<1L>() + X)), W)) \
  Q(3, 0, "0", vm::drop_dependent_terms(Y, (((K<5L>() + K<3L>()) * (K<3L>() / K<12L>())) * Y))) \
  Q(2, 0, "+ 1 + x * -1 y", vm::simplify(((X + K<-1L>()) - (Y + K<-2L>())))) \
  Q(3, 0, "+ * -2 x * / -1 9 * x x", vm::integrate(vm::make_interval(X, (Y - Y)), ((K<1L>() + K<1L>()) + (X / K<9L>())), Z)) \
  Q(2, 0, "* / 3 4 * x / 1 + -8 + x y", vm::expand((((X + K<0L>()) * (K<3L>() / K<4L>())) / ((Y - K<2L>()) - (K<6L>() - X))))) \
  Q(0, 0, "/ 2 3", vm::eval((((Z + K<-10L>()) / (Z - K<-1L>())) / K<-4L>()), vm::make_vector(K<-3L>(), K<7L>(), K<2L>()))) \
  Q(0, 1, "+ 5 + y + z + * 2 x * -1 * x y", vm::expand((((X + X) + (K<4L>() + Y)) - ((K<-1L>() - Z) + (Y * X))))) \
  Q(2, 0, "0", vm::eval(((Z * Y) * (X * K<-3L>())), vm::make_vector(K<12L>(), K<2L>(), K<0L>()))) \
  Q(4, 0, "+ -2 * -1 x", vm::drop_dependent_terms(Z, (K<-2L>() - X))) \
  Q(1, 0, "+ -69995 + * / 1 2 x + * x y * -6 * y + x w", vm::simplify(((((X / K<2L>()) / (X / X)) - ((Y * K<6L>()) * (W + X))) + (((Y / Y) + (Y * X)) - ((K<1L>() - K<5L>()) - (K<-70000L>() * K<1L>())))))) \
  Q(1, 0, "+ * -6 y * 6 * x x", vm::integrate(vm::make_interval((X * X), Y), (K<1L>() + (K<-1L>() * K<7L>())), Z)) \
  Q(2, 1, "0", vm::expand((((Y - K<0L>()) * (Z * Y)) * (Z * (K<0L>() * K<4L>()))))) \
  Q(3, 0, "-4", vm::eval((K<-2L>() + K<-2L>()), vm::make_vector(K<0L>(), K<0L>()))) \
  Q(1, 0, "0", vm::substitute(X, ((X + Z) / (Z - Z)), K<0L>())) \
  Q(3, 0, "+ 3 z", vm::expand(vm::diff(((K<3L>() + Z) * (Y - Z)), Y))) \
  Q(0, 0, "0", vm::coefficient(X, (Z - (Z * Y)))) \
  Q(0, 0, "+ * 6 * z * / 1 + 4 * -1 z * / 1 + 12 x * / 1 * + * -3 y * 2 z + * -3 y * 2 z + -12 * x / 1 y * -2 * x * z * / 1 * y y * / 1 + 4 * -1 z * / 1 + 12 x / 1 + * -3 y * 2 z", vm::diff(((((K<12L>() / K<-1L>()) + (X / Y)) / ((Y * K<-3L>()) + (Z + Z))) / (((X - X) - (Z + K<-4L>())) / ((Z + Z) / (X + K<12L>())))), Y)) \
  Q(3, 0, "+ 3 z", vm::drop_dependent_terms(X, (Z - K<-3L>()))) \
  Q(2, 0, "* x x", vm::simplify((K<0L>() + (X * X)))) \
  Q(3, 0, "* 2 x", vm::integrate(vm::make_interval((K<0L>() * X), X), (Y / (X / K<4L>())), Y)) \
  Q(3, 0, "* 6 / 1 + z * -1 y", vm::simplify((K<6L>() / (Z - Y)))) \
  Q(1, 0, "/ -4 23", vm::eval(((X * (Y - K<0L>())) / ((K<-10L>() * Y) + (K<-3L>() * X))), vm::make_vector(K<2L>(), K<4L>(), K<-2L>())))
#endif
#if CTM_SLICE == 5
#define CTM_CASES(Q) \
  Q(0, 0, "* -1 x", vm::expand(((K<0L>() - X) / K<1L>()))) \
  Q(3, 0, "/ 291 2", vm::eval((((Z - X) / Z) + ((K<-10L>() - Z) / (X / K<12L>()))), vm::make_vector(K<-1L>(), K<0L>(), K<2L>()))) \
  Q(1, 0, "+ -1 x", vm::substitute(U, (K<-1L>() + X), U)) \
  Q(1, 0, "+ 4 + z * -1 x", vm::expand(vm::simplify(((K<1L>() + Z) + (K<3L>() - X))))) \
  Q(0, 0, "0", vm::substitute(((X * X) / X), (X - X), ((X * X) / X))) \
  Q(1, 0, "0", vm::diff((K<3L>() / (X / K<4L>())), Y)) \
  Q(0, 0, "-1", vm::coefficient(U, ((X + Y) + (K<-1L>() * U)))) \
  Q(2, 0, "0", vm::diff((X - K<3L>()), Y)) \
  Q(0, 0, "/ 5 2", vm::drop_dependent_terms(Y, (K<-10L>() / K<-4L>()))) \
  Q(2, 0, "-1", vm::simplify(K<-1L>())) \
  Q(3, 0, "+ * -1 * x x + * 7 x * -1 * x z", vm::integrate(vm::make_interval(Z, (K<7L>() - X)), X, Y)) \
  Q(2, 0, "+ 1 + * -3 z * / -1 4 y", vm::simplify((((Z * K<-3L>()) - (Y / K<4L>())) + ((Z / Z) * (Y / Y))))) \
  Q(0, 0, "-14", vm::eval((K<1L>() - (K<5L>() * Y)), vm::make_vector(K<-1L>(), K<3L>(), K<0L>()))) \
  Q(3, 0, "0", vm::substitute(U, K<4L>(), (U - U))) \
  Q(0, 0, "0", vm::diff(vm::expand(X), Y)) \
  Q(1, 0, "* / 1 * y y / 1 + y z", vm::substitute(K<4L>(), ((Z + Y) * (Y * Y)), ((X / K<4L>()) / X))) \
  Q(3, 0, "+ 1 / 1 y", vm::diff((((Z / Y) - (K<12L>() + X)) + ((K<7L>() + Z) + (Y * X))), Z)) \
  Q(1, 0, "+ 1 * -1 z", vm::coefficient(U, ((Z - K<1L>()) * (X - U)))) \
  Q(3, 0, "* / 1 x + x z", vm::simplify(((X + Z) / X))) \
  Q(4, 0, "0", vm::integrate(vm::make_interval(K<-10L>(), X), ((X - K<-10L>()) * K<0L>()), Y)) \
  Q(0, 0, "* + 9 x + x z", vm::expand((((X + K<9L>()) * (X + Z)) + ((Y / Y) * (Z - Z))))) \
  Q(1, 0, "9", vm::eval(((Y + X) - K<1L>()), vm::make_vector(K<3L>(), K<7L>()))) \
  Q(0, 1, "5", vm::expand(K<5L>())) \
  Q(1, 0, "-3", vm::eval((((Z + X) - (X + Y)) + ((Y / Y) * (Y / Y))), vm::make_vector(K<0L>(), K<1L>(), K<-3L>()))) \
  Q(3, 0, "0", vm::substitute(Z, K<0L>(), Z)) \
  Q(4, 0, "* 12 * y + -4 z", vm::expand(vm::expand(((Z - K<4L>()) * (K<12L>() * Y))))) \
  Q(1, 0, "-1", vm::substitute(Y, K<-1L>(), Y)) \
  Q(1, 0, "0", vm::diff((K<0L>() - K<1L>()), Z)) \
  Q(0, 0, "+ / -1 4 + * / 1 12 * z z + * / -1 12 * x z * / 1 4 * z / 1 x", vm::coefficient(Z, (((K<-3L>() / X) - Z) * ((X - Z) * (Z / K<12L>()))))) \
  Q(4, 0, "0", vm::diff(((K<1L>() + (K<5L>() - K<-2L>())) * ((X * K<0L>()) / (Z - X))), Z)) \
  Q(0, 0, "/ -1 20", vm::drop_dependent_terms(X, ((X + (K<-1L>() / K<5L>())) / K<4L>()))) \
  Q(1, 0, "* / -1 3 * x y", vm::simplify((((X / K<1L>()) / (X * K<-3L>())) * ((X - K<0L>()) * Y)))) \
  Q(2, 0, "+ * -9 w + * 3 * w * w w * 6 * w w", vm::integrate(vm::make_interval((W * W), W), ((K<-3L>() - W) * K<3L>()), Y)) \
  Q(2, 0, "+ * 3 x * 3 y", vm::simplify((K<3L>() * (Y + X)))) \
  Q(0, 0, "+ / 765 14 * -5 z", vm::integrate(vm::make_interval(K<7L>(), (K<1L>() * K<12L>())), ((X - Z) - (K<-10L>() / K<7L>())), X)) \
  Q(4, 0, "0", vm::expand(((K<7L>() * K<0L>()) / (K<5L>() + K<1L>())))) \
  Q(1, 0, "81", vm::eval((K<0L>() + (X * X)), vm::make_vector(K<9L>(), K<9L>(), K<0L>()))) \
  Q(4, 1, "* 4 x", vm::expand((X - (X * K<-3L>())))) \
  Q(4, 0, "-350000", vm::eval((K<1L>() * (K<5L>() * Y)), vm::make_vector(K<-3L>(), K<-70000L>()))) \
  Q(1, 0, "-1", vm::substitute(Y, ((K<12L>() - W) - Y), (K<1L>() / K<-1L>()))) \
  Q(1, 0, "* x y", vm::expand(vm::simplify((Y * X)))) \
  Q(1, 0, "x", vm::substitute(Z, ((Y - Y) + (K<1L>() + K<-1L>())), ((X - Z) / K<1L>()))) \
  Q(1, 0, "0", vm::diff((K<1L>() + K<-2L>()), X)) \
  Q(2, 0, "12", vm::drop_dependent_terms(X, (((Y - K<1L>()) * X) + K<12L>()))) \
  Q(0, 0, "* 5 * y / 1 x", vm::simplify(((K<5L>() * Y) / X))) \
  Q(0, 0, "0", vm::integrate(vm::make_interval(X, X), ((Z + X) * (K<12L>() + X)), Y)) \
  Q(0, 0, "+ * -5 z * 5 x", vm::simplify(((K<5L>() / K<-1L>()) * (Z - X)))) \
  Q(3, 0, "+ / -7 36 + * / -8 9 z + * / 13 12 * z z + * x * z z * -1 * x z", vm::integrate(vm::make_interval(K<1L>(), Z), (((K<1L>() / K<9L>()) + Z) + ((Z * X) + (Y / K<6L>()))), Y)) \
  Q(1, 0, "* 4 / 1 x", vm::expand((K<4L>() / X))) \
  Q(1, 0, "-1", vm::eval((X - Y), vm::make_vector(K<-1L>(), K<0L>(), K<-4L>()))) \
  Q(1, 0, "+ * -1 * / 1 + x z + -5 * -1 * z + x z * -6 * / 1 x + 5 * z + x z", vm::substitute(Y, ((Z / K<-1L>()) * (Z + X)), (((Z / Y) * (Y - K<5L>())) - ((K<5L>() - Y) * (K<6L>() / X))))) \
  Q(0, 0, "0", vm::diff((((K<-10L>() * K<-10L>()) + (K<9L>() - Y)) - ((K<1L>() - K<7L>()) - (X * X))), Z)) \
  Q(1, 0, "-8", vm::drop_dependent_terms(X, (K<-10L>() - ((Z - Z) + K<-2L>())))) \
  Q(1, 0, "0", vm::expand((((Z - K<12L>()) * (Y - Y)) / ((X * Y) + (K<-4L>() - K<0L>()))))) \
  Q(0, 0, "0", vm::eval((((K<3L>() - K<-10L>()) * (X / X)) * ((K<0L>() * K<-1L>()) * X)), vm::make_vector(K<1L>()))) \
  Q(2, 0, "* / 1 5 y", vm::substitute(U, ((Y * Z) - (Z + Y)), ((U - U) + (Y / K<5L>())))) \
  Q(0, 0, "0", vm::diff(vm::expand((((K<6L>() + K<1L>()) + (Y - Y)) * (K<1L>() + (Z * Z)))), Y)) \
  Q(3, 0, "-2", vm::substitute(U, (K<-3L>() + K<1L>()), U)) \
  Q(2, 0, "* / 1 15 * x * / 1 * z z / 1 + x y", vm::diff((((K<-4L>() + K<4L>()) - (X / K<5L>())) / ((X + Y) * (Z * K<3L>()))), Z)) \
  Q(1, 0, "0", vm::coefficient(Z, ((K<3L>() / X) + K<1L>()))) \
  Q(1, 0, "0", vm::diff((K<-1L>() - X), Y)) \
  Q(1, 0, "* / 1 5 z", vm::drop_dependent_terms(X, ((Z / K<5L>()) + ((K<1L>() * K<0L>()) * (X / K<-2L>()))))) \
  Q(2, 0, "+ / -9 4 * / -1 4 y", vm::simplify(((Y + K<9L>()) / K<-4L>()))) \
  Q(4, 0, "0", vm::integrate(vm::make_interval(Y, Y), (Y - K<-3L>()), Z)) \
  Q(0, 0, "* 5 y", vm::expand(((K<-10L>() * Y) / K<-2L>()))) \
  Q(0, 0, "24", vm::eval(((X * X) - (K<5L>() * X)), vm::make_vector(K<-3L>()))) \
  Q(0, 1, "+ 12 + y * -1 z", vm::expand(((Y - Z) + K<12L>()))) \
  Q(3, 0, "20", vm::eval(((K<5L>() * Y) - K<0L>()), vm::make_vector(K<-2L>(), K<4L>(), K<2L>()))) \
  Q(4, 0, "+ * -30 x + * -30 z * -20 y", vm::substitute(Y, ((K<2L>() * Y) - (X * K<-3L>())), (((Z * K<2L>()) + (Y + Z)) * ((K<2L>() - K<12L>()) + (Y * K<0L>()))))) \
  Q(1, 0, "0", vm::diff(vm::expand(X), Z)) \
  Q(0, 0, "0", vm::substitute(Z, ((Y - Z) * (X + Y)), (K<0L>() / K<-2L>()))) \
  Q(0, 0, "/ -5 7", vm::diff((((Z * K<5L>()) - (X / K<-3L>())) / ((K<-1L>() * K<1L>()) * (K<7L>() + K<0L>()))), Z)) \
  Q(1, 0, "0", vm::coefficient(Z, (Y * K<4L>()))) \
  Q(0, 0, "2", vm::diff((((X - K<7L>()) - (K<9L>() - X)) + ((K<5L>() * K<12L>()) / (K<-3L>() * K<1L>()))), X)) \
  Q(1, 0, "+ -1 * -2 x", vm::drop_dependent_terms(Y, ((K<0L>() - K<1L>()) - (X * K<2L>())))) \
  Q(1, 0, "+ -4 * / 8 9 y", vm::simplify(((K<-4L>() + Y) - (Y / K<9L>())))) \
  Q(0, 0, "0", vm::integrate(vm::make_interval(X, X), ((X / K<4L>()) * (X - K<2L>())), Z)) \
  Q(1, 0, "* 5 y", vm::simplify(((K<5L>() * Y) / K<1L>()))) \
  Q(4, 0, "+ * y y + * -6 x + * -6 y + * 6 * x x + * x y * -1 * y * x x", vm::integrate(vm::make_interval(K<6L>(), Y), ((Y + X) - (X * X)), Z)) \
  Q(2, 0, "12", vm::expand(K<12L>())) \
  Q(4, 0, "-13", vm::eval((Y + (X - K<2L>())), vm::make_vector(K<-10L>(), K<-1L>(), K<6L>()))) \
  Q(1, 1, "+ 7 * -1 y", vm::expand(((K<6L>() + K<1L>()) - Y))) \
  Q(3, 0, "* + -10 z + -10 z", vm::expand(vm::substitute(Y, (Z + K<-10L>()), (Y * Y)))) \
  Q(0, 0, "3", vm::substitute(X, ((X * K<2L>()) + (Z + Y)), (K<1L>() * K<3L>()))) \
  Q(2, 0, "/ 1 4", vm::diff(((X / K<4L>()) / K<1L>()), X)) \
  Q(0, 0, "* / 18 181 z", vm::drop_dependent_terms(U, (((Z + U) - (K<-1L>() * Z)) / ((K<9L>() - K<-10L>()) - (K<-10L>() / K<9L>()))))) \
  Q(2, 0, "+ 1 + x * / 9 2 w", vm::simplify((((Y / Y) + X) - ((K<9L>() / K<-1L>()) * (W / K<2L>()))))) \
  Q(1, 0, "/ 3 4", vm::integrate(vm::make_interval((K<-1L>() + Z), Z), ((K<3L>() / X) * (X / K<4L>())), Y)) \
  Q(1, 0, "* + / -10 9 * / 1 9 z + * -4 z * x z", vm::simplify((((Z * X) - (Z * K<4L>())) / (K<9L>() / (K<-10L>() + Z))))) \
  Q(2, 0, "+ 2 + * -80 w * -20 * x w", vm::integrate(vm::make_interval(K<3L>(), K<5L>()), (((K<1L>() + K<1L>()) - (K<7L>() - K<6L>())) + ((K<-10L>() * W) * (X + Y))), Y)) \
  Q(4, 1, "* -3 * z z", vm::expand((Z * (Z * K<-3L>())))) \
  Q(1, 0, "z", vm::diff(vm::simplify((X * Z)), X)) \
  Q(2, 0, "+ x y", vm::substitute(K<-2L>(), ((X - X) + (Y + X)), K<-2L>())) \
  Q(2, 0, "0", vm::diff((K<12L>() / K<-3L>()), Z)) \
  Q(0, 0, "0", vm::coefficient(Y, (((K<0L>() - K<1L>()) * X) * ((K<-10L>() + K<7L>()) * (K<6L>() / Z))))) \
  Q(4, 0, "/ -1 2", vm::diff(((X - K<2L>()) / K<-2L>()), X)) \
  Q(0, 0, "+ 9 * -1 x", vm::drop_dependent_terms(Y, (((K<5L>() + K<5L>()) + (Y - Y)) - ((X - K<-1L>()) + (Y * K<12L>()))))) \
  Q(3, 0, "0", vm::simplify(((((K<5L>() / X) / K<2L>()) * ((K<2L>() + K<-2L>()) * (Y * Y))) / X))) \
  Q(0, 0, "* -144 z", vm::integrate(vm::make_interval(Z, K<0L>()), (K<12L>() * K<12L>()), X)) \
  Q(1, 1, "* -6 x", vm::expand(((K<0L>() * Z) - (X * K<6L>())))) \
  Q(1, 0, "8", vm::eval(((X + X) - (X - K<7L>())), vm::make_vector(K<1L>()))) \
  Q(3, 0, "* y * z * + x z + x z", vm::substitute(X, (X + Z), ((Z * X) * (Y * X)))) \
  Q(3, 0, "+ -3 + * -4 z * 3 y", vm::substitute(Y, Y, vm::expand(((Y - (K<-2L>() * Y)) - ((K<1L>() + K<2L>()) + (K<4L>() * Z)))))) \
  Q(4, 0, "* / -1 4 * z / 1 y", vm::substitute(X, (K<-2L>() * X), ((Z / Y) / K<-4L>()))) \
  Q(2, 0, "0", vm::diff(X, Y)) \
  Q(1, 0, "+ 14 + * -2 x + * 7 y * -1 * x y", vm::integrate(vm::make_interval(X, (K<1L>() * K<7L>())), (Y + K<2L>()), Z)) \
  Q(2, 0, "* + / -7 3 * -1 x + 4 + y + z * -1 x", vm::simplify((((Y - X) - (K<-4L>() - Z)) * ((K<4L>() / K<-3L>()) - (K<1L>() + X))))) \
  Q(1, 0, "+ * -1 * z z + * -2 * x x * 3 * x z", vm::integrate(vm::make_interval((X + X), Z), (X - Z), Y)) \
  Q(1, 0, "* / 1 x + / 4 5 * 9 y", vm::expand((((K<4L>() / K<5L>()) + (K<9L>() * Y)) / X))) \
  Q(0, 0, "-3", vm::eval(K<-3L>(), vm::make_vector(K<1L>(), K<4L>(), K<5L>()))) \
  Q(2, 0, "+ -1 + y + / 1 + 2 * -1 x * / -1 6 x", vm::substitute(Z, Y, (((Z / Z) / (K<2L>() - X)) + ((Z - K<1L>()) - (X / K<6L>()))))) \
  Q(1, 0, "0", vm::diff(((X / K<4L>()) - (K<3L>() / X)), Z)) \
  Q(4, 0, "1", vm::drop_dependent_terms(X, ((Z / Z) / (Z / Z)))) \
  Q(1, 0, "* + 2 * -1 y + 5 y", vm::simplify(((K<5L>() + Y) * (K<2L>() - Y)))) \
  Q(3, 0, "+ * 15 * y y * 15 * y z", vm::integrate(vm::make_interval((K<0L>() * K<0L>()), (Z + Y)), (K<3L>() * (K<5L>() * Y)), X)) \
  Q(3, 0, "12", vm::simplify((K<12L>() / K<1L>()))) \
  Q(1, 0, "+ / -4 3 + y + * / 1 12 * z z * / -1 4 * y z", vm::integrate(vm::make_interval(K<4L>(), Z), ((X / K<6L>()) - (Y / K<4L>())), X)) \
  Q(1, 0, "* x * / 1 y / 1 + / 2 5 * -4 x", vm::expand((((X / Y) * (Z / Z)) / ((X * K<-4L>()) + (K<-4L>() / K<-10L>()))))) \
  Q(0, 0, "-10", vm::eval((((Z - Y) + (K<2L>() - K<6L>())) + K<-3L>()), vm::make_vector(K<9L>(), K<3L>(), K<0L>()))) \
  Q(0, 0, "-2", vm::substitute(Z, ((K<-10L>() * Z) - (Z / K<3L>())), ((X - K<2L>()) - X))) \
  Q(1, 0, "0", vm::diff(vm::simplify((((X * Z) + (K<-4L>() - K<4L>())) + ((K<6L>() - Z) - (X * Z)))), X)) \
  Q(0, 0, "* / -4 3 y", vm::substitute(Y, Y, ((K<4L>() / K<-3L>()) * Y))) \
  Q(3, 0, "1", vm::diff(((Z / Z) + X), X)) \
  Q(1, 0, "0", vm::coefficient(Y, (X - K<0L>()))) \
  Q(0, 0, "/ 1 4", vm::diff(((X / K<4L>()) + K<3L>()), X)) \
  Q(3, 0, "+ 5 * -5 * y z", vm::integrate(vm::make_interval((Y * Z), K<1L>()), ((K<-10L>() * K<-1L>()) / K<2L>()), X)) \
  Q(1, 0, "* z * + 1 z + -3 + * -4 / 1 x * 2 z", vm::simplify(((((Z - K<3L>()) - (K<0L>() / Y)) - ((K<4L>() / X) - Z)) * (((Z + X) - (X - K<1L>())) * Z)))) \
  Q(1, 0, "-2856", vm::eval((((X - X) + (X + X)) - ((K<4L>() * K<5L>()) * (X * X))), vm::make_vector(K<12L>()))) \
  Q(1, 1, "+ 9 + * -10 x * -1 * x * y y", vm::expand((((X * K<-10L>()) - (K<0L>() - K<9L>())) - ((Y * Y) * (X - K<0L>()))))) \
  Q(0, 0, "-4", vm::eval(((K<-10L>() + X) + (Z - K<1L>())), vm::make_vector(K<1L>(), K<1L>(), K<6L>()))) \
  Q(1, 0, "6", vm::substitute(X, ((Z / X) / K<2L>()), K<6L>())) \
  Q(3, 0, "x", vm::diff(((X + K<7L>()) + ((X * Z) - (K<-4L>() - Y))), Z)) \
  Q(0, 0, "0", vm::coefficient(Z, ((Y + X) / (Y + X)))) \
  Q(1, 0, "0", vm::diff((K<0L>() * (X / K<4L>())), X)) \
  Q(0, 0, "+ 2 y", vm::drop_dependent_terms(X, ((Y + X) - K<-2L>()))) \
  Q(3, 0, "+ * / -4 3 x + * z / 1 y * -1 * x * * z z + 5 z", vm::simplify(((((X / K<-3L>()) + (Z / Y)) - X) - (Z * ((K<5L>() + Z) * (Z * X)))))) \
  Q(1, 0, "+ * -20 y * 10 x", vm::integrate(vm::make_interval((X - Y), Y), K<-10L>(), Z)) \
  Q(0, 0, "+ -1 x", vm::simplify((X - K<1L>()))) \
  Q(1, 0, "+ 2 * -2 y", vm::integrate(vm::make_interval((Y - Y), K<2L>()), (X - Y), X)) \
  Q(0, 1, "9", vm::expand((K<9L>() + (X * K<0L>())))) \
  Q(0, 0, "12", vm::eval((K<3L>() + X), vm::make_vector(K<9L>(), K<6L>(), K<9L>()))) \
  Q(4, 0, "+ -10 x", vm::substitute(Y, ((K<-4L>() + K<1L>()) - (K<7L>() - X)), Y)) \
  Q(4, 0, "12", vm::expand(vm::expand(((K<3L>() * K<4L>()) / K<1L>())))) \
  Q(4, 0, "+ x * 5 y", vm::substitute(Y, Y, (X + (K<5L>() * Y)))) \
  Q(0, 0, "0", vm::diff(K<0L>(), Y)) \
  Q(0, 0, "0", vm::integrate(vm::make_interval(K<-2L>(), K<-2L>()), (Z / K<4L>()), Y)) \
  Q(0, 0, "* / 1 4 x", vm::simplify(((X / K<4L>()) + K<0L>()))) \
  Q(0, 0, "1", vm::eval(((X - K<2L>()) * (K<3L>() / X)), vm::make_vector(K<3L>()))) \
  Q(4, 0, "* / 1 7 z", vm::substitute(Y, K<1L>(), ((Z + (X - X)) / K<7L>()))) \
  Q(0, 0, "* 2 * x * z z", vm::substitute(Y, (Y + X), vm::expand(((Z * Z) * (X + X))))) \
  Q(3, 0, "x", vm::substitute(Z, (Z / X), X)) \
  Q(0, 0, "/ 5 3", vm::diff(((X - W) / (K<-3L>() / K<5L>())), W)) \
  Q(1, 0, "0", vm::coefficient(Z, ((X * X) - (K<3L>() / X)))) \
  Q(0, 0, "0", vm::diff((((K<12L>() + K<5L>()) * (K<7L>() / K<-1L>())) - ((K<-2L>() / Z) * Y)), X)) \
  Q(1, 0, "+ 9 * -1 w", vm::integrate(vm::make_interval(W, K<9L>()), (K<2L>() + K<-1L>()), X)) \
  Q(4, 0, "+ -2 x", vm::expand(((X - K<2L>()) + K<0L>()))) \
  Q(0, 0, "/ -15 2", vm::eval(((X / K<4L>()) * K<3L>()), vm::make_vector(K<-10L>(), K<1L>(), K<-1L>()))) \
  Q(2, 1, "* x * y y", vm::expand(((Y * Y) * (K<0L>() + X)))) \
  Q(3, 0, "-2", vm::eval((K<-2L>() - Z), vm::make_vector(K<12L>(), K<1L>(), K<0L>()))) \
  Q(1, 0, "+ * 10 * y y * 10 * x y", vm::substitute(Z, Y, (((Y * X) + (Z * Z)) * ((K<0L>() * Y) - (K<-2L>() * K<5L>()))))) \
  Q(0, 0, "0", vm::diff((((Y * Y) + (K<-3L>() / K<12L>())) / ((K<0L>() + X) - (X - Y))), Z)) \
  Q(0, 0, "+ x * 2 y", vm::coefficient(X, ((Y + X) * (Y + X)))) \
  Q(0, 0, "5", vm::diff(((K<3L>() / X) + (K<5L>() * Y)), Y)) \
  Q(0, 0, "* / 1 12 * x y", vm::drop_dependent_terms(Z, ((Y / K<12L>()) * X))) \
  Q(1, 0, "+ -2 * -3 / 1 x", vm::simplify((K<-2L>() - (K<3L>() / X)))) \
  Q(4, 0, "+ * * x x / 1 + -2 x + * -9 * * y y / 1 + -2 x * -8 * x * y / 1 + -2 x", vm::integrate(vm::make_interval((K<9L>() * Y), X), ((Y + X) / (X - K<2L>())), Z)) \
  Q(2, 0, "+ 12 + * -1 z * -31 x", vm::expand((((K<-3L>() - K<2L>()) * (X * K<6L>())) + (K<12L>() - (Z + X))))) \
  Q(1, 0, "-49", vm::eval(((X * (K<0L>() - X)) - (X - X)), vm::make_vector(K<7L>()))) \
  Q(1, 0, "0", vm::substitute(X, ((W - W) - (X / K<7L>())), (((K<6L>() / K<-1L>()) + K<7L>()) * (X * (Y - Y))))) \
  Q(0, 0, "0", vm::diff((K<-2L>() / (Y + X)), Z)) \
  Q(0, 0, "+ 1 y", vm::coefficient(W, (((Y - K<5L>()) + W) * ((Y * K<1L>()) + (Y / Y))))) \
  Q(0, 0, "0", vm::diff((K<3L>() + K<3L>()), Y)) \
  Q(3, 0, "+ * / 14 9 x + * -6 * x z * 4 * x * z z", vm::integrate(vm::make_interval((Z * K<-3L>()), K<-1L>()), ((X / K<1L>()) * ((K<-2L>() - Y) + (Y / K<9L>()))), Y)) \
  Q(0, 0, "+ * -3 y * x / 1 z", vm::simplify(((X / Z) + (K<-3L>() * Y)))) \
  Q(1, 0, "+ / -1 2 * / 1 4 * z / 1 x", vm::integrate(vm::make_interval((X + X), Z), ((X / K<4L>()) / (X * X)), Y)) \
  Q(4, 0, "+ -2 * 3 / 1 x", vm::expand(((K<3L>() / X) + K<-2L>()))) \
  Q(1, 0, "6", vm::eval((((X - K<0L>()) + (K<2L>() + X)) - ((X - X) / K<2L>())), vm::make_vector(K<2L>()))) \
  Q(1, 1, "* 10 * x z", vm::expand(((K<5L>() * (X + X)) * Z))) \
  Q(1, 0, "-10", vm::eval((X - Z), vm::make_vector(K<2L>(), K<4L>(), K<12L>()))) \
  Q(1, 0, "x", vm::substitute(X, (X - Z), (Z + X))) \
  Q(1, 0, "+ 16 y", vm::simplify(vm::expand((((K<9L>() + Y) * (Y - Y)) + ((Y - K<-3L>()) + (K<9L>() + K<4L>())))))) \
  Q(0, 0, "+ * -1 * x x + * -2 z + * 2 x * x + x * -1 z", vm::substitute(Y, ((X + X) - (X + Z)), (((K<0L>() * Y) + (X * Y)) - ((X * X) + (K<-2L>() * Y))))) \
  Q(4, 0, "* 6 x", vm::diff(((X * X) * K<3L>()), X)) \
  Q(0, 0, "+ / 19 6 + z * -1 y", vm::drop_dependent_terms(X, ((K<-1L>() * (K<5L>() / K<6L>())) - ((Y - Z) + K<-4L>())))) \
  Q(0, 0, "+ 1 + * -1 x * 2 y", vm::simplify(((K<2L>() * Y) + (K<1L>() - X)))) \
  Q(0, 0, "+ 44 + * -44 x * -22 y", vm::integrate(vm::make_interval(K<12L>(), K<-10L>()), ((Y + X) + (X - K<2L>())), W)) \
  Q(3, 0, "* 12 * / 1 y + 3 + z * -1 x", vm::expand(((Z - (X - K<3L>())) / ((Y + K<0L>()) / K<12L>())))) \
  Q(2, 0, "7", vm::eval(X, vm::make_vector(K<7L>(), K<6L>(), K<5L>()))) \
  Q(0, 1, "+ 2 + x + y * -1 z", vm::expand(((X - Z) + (Y - K<-2L>())))) \
  Q(4, 0, "90", vm::eval((((K<2L>() + X) - (K<-4L>() + Y)) * K<5L>()), vm::make_vector(K<2L>(), K<-10L>(), K<4L>()))) \
  Q(1, 0, "+ -2 + * -1 z + * 2 x * -3 * / 1 x + -12 y", vm::substitute(U, (K<5L>() + Z), (((Y - K<12L>()) * (K<-3L>() / X)) + ((X + K<3L>()) - (U - X))))) \
  Q(1, 0, "-4", vm::substitute(Y, K<-2L>(), vm::expand(K<-4L>()))) \
  Q(3, 0, "0", vm::coefficient(Z, ((X * X) * Y))) \
  Q(3, 0, "* / 1 2 x", vm::diff((X * (X / K<4L>())), X)) \
  Q(4, 0, "+ * 3 / 1 * x x * -3 * z / 1 * x * x x", vm::integrate(vm::make_interval(Z, X), ((K<3L>() / X) / (X * X)), Y)) \
  Q(0, 0, "-90", vm::simplify((K<9L>() * K<-10L>()))) \
  Q(3, 0, "+ -4 x", vm::integrate(vm::make_interval((K<-2L>() * K<0L>()), (X + K<-4L>())), ((X - K<2L>()) / (X - K<2L>())), Y)) \
  Q(2, 1, "0", vm::expand(((X - X) * (Z * Y)))) \
  Q(0, 0, "/ 9 49", vm::eval((K<9L>() * ((X / Y) / (Y * X))), vm::make_vector(K<5L>(), K<7L>()))) \
  Q(4, 0, "+ * / 1 2 x * / 1 7 z", vm::substitute((X - Y), (Z / K<7L>()), ((X - Y) - (X / K<-2L>())))) \
  Q(0, 0, "+ * / 1 + -1 * x z + 6 * -1 x * / 1 3 * * z z / 1 + y z", vm::simplify(((((K<-3L>() + K<5L>()) - (K<-4L>() + X)) / ((Z * X) + K<-1L>())) - (((K<3L>() * Z) / K<9L>()) / ((Y + Z) / (Z / K<-1L>())))))) \
  Q(0, 0, "+ * -12 * z z * 12 * z * z z", vm::integrate(vm::make_interval(Z, (Z * Z)), (K<12L>() * Z), X)) \
  Q(2, 0, "+ / -9 2 * / -1 2 y", vm::expand(((K<9L>() + Y) / K<-2L>()))) \
  Q(1, 0, "0", vm::eval((K<0L>() * K<1L>()), vm::make_vector(K<-10L>()))) \
  Q(0, 1, "+ x + * -1 y * 6 * x y", vm::expand((((X + Y) - (Y * K<2L>())) + ((X * Y) * (K<6L>() + K<0L>()))))) \
  Q(0, 0, "/ -1 2", vm::eval((X / (X * K<-2L>())), vm::make_vector(K<9L>()))) \
  Q(0, 0, "+ z + * -3 x * -1 * x z", vm::substitute(U, (X * K<3L>()), ((Z - U) - (X * Z)))) \
  Q(0, 0, "-1", vm::diff(((K<1L>() - Z) - (K<-4L>() + X)), X)) \
  Q(0, 0, "-1", vm::coefficient(X, (K<2L>() - X))) \
  Q(1, 0, "0", vm::diff((K<-2L>() / K<1L>()), Z)) \
  Q(1, 0, "z", vm::drop_dependent_terms(X, (Z - X))) \
  Q(4, 0, "+ x * / -1 4 y", vm::simplify((((Y / K<-4L>()) * K<1L>()) + (X + (Y - Y))))) \
  Q(3, 0, "+ * -12 * x * x x + * y * x * x x + * * x x * y y * -12 * y * x x", vm::integrate(vm::make_interval(K<12L>(), Y), (((Y * X) + (X * X)) * X), Z)) \
  Q(1, 0, "+ 7 y", vm::substitute(X, ((Z * Z) - (K<0L>() + K<1L>())), (K<7L>() + Y))) \
  Q(1, 0, "* -1 x", vm::substitute(X, X, vm::diff(((K<2L>() / K<-2L>()) - (Y * X)), Y))) \
  Q(0, 0, "+ 3 + x + y w", vm::substitute(U, X, ((K<3L>() + Y) + (W + U)))) \
  Q(0, 0, "0", vm::diff((X * K<6L>()), Y)) \
  Q(2, 0, "+ -2 + x * -3 / 1 x", vm::drop_dependent_terms(Z, ((X - K<2L>()) - (K<3L>() / X)))) \
  Q(2, 0, "+ * -1 y + * y / 1 z * 9 * / 1 y + y * -1 x", vm::simplify((((Y / Z) - (Y - K<0L>())) + ((Y - X) / (Y / K<9L>()))))) \
  Q(2, 0, "* / 1 10 * y z", vm::integrate(vm::make_interval(Y, K<0L>()), (Z / K<-10L>()), X)) \
  Q(1, 0, "+ 12 + x + z + * -1 y * -1 * y z", vm::expand(((Z - (Y * Z)) + (K<12L>() + (X - Y))))) \
  Q(3, 0, "/ -38 7", vm::eval(((Y / K<7L>()) - (K<0L>() - K<-4L>())), vm::make_vector(K<12L>(), K<-10L>()))) \
  Q(0, 1, "* + * y y * -1 * x z + -9 + z * -1 * x y", vm::expand((((Y * Y) - (Z * X)) * ((Z - K<9L>()) - (Y * X))))) \
  Q(0, 0, "-2", vm::eval((((K<1L>() - K<3L>()) - X) + X), vm::make_vector(K<9L>()))) \
  Q(1, 0, "0", vm::substitute((K<1L>() + Y), ((K<0L>() / K<-3L>()) * (Y - K<5L>())), (((K<1L>() + Y) * (Z - K<4L>())) * ((K<0L>() - Z) / K<2L>())))) \
  Q(1, 0, "y", vm::expand(vm::diff((Y * W), W))) \
  Q(2, 0, "+ 4 + * / 1 2 * x x * -3 x", vm::integrate(vm::make_interval(X, K<4L>()), (K<3L>() - Y), Y)) \
  Q(0, 0, "+ -2 * / 5 4 x", vm::expand(((X - K<2L>()) + (X / K<4L>())))) \
  Q(1, 0, "/ 9 4", vm::eval((K<1L>() + (X / K<4L>())), vm::make_vector(K<5L>(), K<9L>()))) \
  Q(1, 0, "x", vm::substitute(Y, K<0L>(), ((Y + X) * K<1L>()))) \
  Q(0, 0, "+ * -1 z * 10 * / 1 * y y + 9 x", vm::expand(vm::diff((((K<-10L>() / Y) * (X + K<9L>())) + (X - (Y * Z))), Y))) \
  Q(4, 0, "+ * -3 x * / 1 2 * y + 12 x", vm::substitute(Y, ((X + K<12L>()) * (Y / K<2L>())), ((Y - X) - (X + X)))) \
  Q(2, 0, "0", vm::diff(((X - K<2L>()) / X), Y)) \
  Q(3, 0, "+ 91 * -7 x", vm::drop_dependent_terms(Y, (((X - Y) - (K<3L>() - K<-10L>())) * ((K<2L>() / K<-4L>()) * (K<9L>() + K<5L>()))))) \
  Q(0, 0, "+ / -1 5 * / 1 5 z", vm::simplify(((Z - K<1L>()) / K<5L>()))) \
  Q(4, 0, "0", vm::integrate(vm::make_interval(X, X), (X * K<1L>()), Y)) \
  Q(3, 0, "0", vm::simplify((Y - (Y / K<1L>())))) \
  Q(0, 0, "+ / 9 4 + * / 3 4 z + * / 9 4 x * / 3 4 * x z", vm::integrate(vm::make_interval((K<3L>() * X), K<-3L>()), ((Z + K<3L>()) / K<-4L>()), Y)) \
  Q(1, 0, "* / -1 3 * z / 1 x", vm::expand(((Z / K<1L>()) / (X * K<-3L>())))) \
  Q(0, 0, "/ -397 4", vm::eval((((K<-3L>() + Z) + (Y * Z)) - ((Y / K<4L>()) - (K<-10L>() * X))), vm::make_vector(K<12L>(), K<1L>(), K<12L>())))
#endif
#if CTM_SLICE == 6
#define CTM_CASES(Q) \
  Q(1, 1, "+ -27 * 3 z", vm::expand(((K<4L>() * (Z + K<-4L>())) + ((K<-2L>() * K<5L>()) - (Z + K<1L>()))))) \
  Q(4, 0, "+ x y", vm::expand(vm::substitute(U, Y, (X + U)))) \
  Q(0, 0, "+ / 5 6 * / -1 6 w", vm::substitute(Y, K<5L>(), (((Y + K<5L>()) - (W + W)) / K<12L>()))) \
  Q(3, 0, "+ * 3 y + * y / 1 x * / 1 2 * y / 1 * z z", vm::diff((((Y * (Z / X)) - (Y / (Z + Z))) - (((K<-3L>() * Y) * (Z + K<3L>())) + X)), Z)) \
  Q(1, 0, "/ -41 36", vm::coefficient(X, (((Y - X) + (X / K<9L>())) - (K<2L>() + (X / K<4L>()))))) \
  Q(3, 0, "* + 1 z + 2 z", vm::diff((((X - X) + (Z - K<-2L>())) * ((Z * Y) + (Z + Y))), Y)) \
  Q(4, 0, "z", vm::drop_dependent_terms(X, Z)) \
  Q(3, 0, "+ / 4 3 * / -2 3 x", vm::simplify((((X - K<-4L>()) / K<3L>()) + ((K<0L>() - Y) * (X / Y))))) \
  Q(2, 0, "+ * 36 * z z * 24 * y z", vm::integrate(vm::make_interval(Y, (Z + Y)), ((Z + X) * (K<12L>() + K<12L>())), X)) \
  Q(1, 0, "+ -12 + y w", vm::simplify(((Y + W) - (K<2L>() * K<6L>())))) \
  Q(2, 0, "+ * / -7 10 z * / 7 10 y", vm::integrate(vm::make_interval((Z * K<0L>()), K<7L>()), ((Z - Y) / K<-10L>()), X)) \
  Q(3, 0, "0", vm::expand(((Z / Y) * (X - X)))) \
  Q(0, 0, "* y + 1 * / 1 5 x", vm::expand(vm::expand((Y * ((X / K<5L>()) + (X / X)))))) \
  Q(2, 0, "+ y z", vm::substitute(X, Y, (Y + Z))) \
  Q(2, 0, "* / 2 3 x", vm::diff(((X * X) / K<3L>()), X)) \
  Q(4, 0, "0", vm::coefficient(Z, (((K<0L>() + K<2L>()) * (Y * X)) * ((K<1L>() + X) * (K<-4L>() / Y))))) \
  Q(0, 0, "-1", vm::diff((K<-2L>() - (Y + X)), X)) \
  Q(3, 0, "0", vm::drop_dependent_terms(X, ((X / K<4L>()) * K<1L>()))) \
  Q(3, 0, "* x x", vm::simplify((X * X))) \
  Q(1, 0, "+ * / -3 10 x * / 3 10 y", vm::integrate(vm::make_interval(Y, X), (K<3L>() / K<-10L>()), Z)) \
  Q(0, 1, "* + -4 y + 9 x", vm::expand(((X + K<9L>()) * (Y + K<-4L>())))) \
  Q(2, 0, "/ -1 10", vm::eval(((Y / K<2L>()) / (K<-2L>() + K<7L>())), vm::make_vector(K<6L>(), K<-1L>()))) \
  Q(1, 0, "* w + -1 + x w", vm::substitute(U, ((W + X) - (Y / Y)), (U * W))) \
  Q(0, 0, "0", vm::diff(vm::diff((((Z - Z) / (Y / K<1L>())) * ((K<-10L>() + K<-10L>()) / (Z - K<-10L>()))), Y), X)) \
  Q(0, 0, "y", vm::substitute(Z, Y, Z)) \
  Q(4, 0, "0", vm::diff(((K<5L>() / K<-1L>()) / (Z * K<-10L>())), X)) \
  Q(4, 0, "0", vm::coefficient(Z, (K<0L>() / (Y + X)))) \
  Q(3, 0, "0", vm::diff(K<5L>(), Y)) \
  Q(4, 0, "0", vm::drop_dependent_terms(X, (K<3L>() - K<3L>()))) \
  Q(4, 0, "+ * / -3 2 x * / -3 2 y", vm::simplify(((Y + X) / (K<-4L>() / K<6L>())))) \
  Q(0, 0, "0", vm::integrate(vm::make_interval(Y, Y), (Y / K<1L>()), X)) \
  Q(1, 0, "+ -1 + x y", vm::simplify(((X + K<-4L>()) - (K<-3L>() - Y)))) \
  Q(0, 0, "+ * -7 * y * y y + * / -7 2 w + * / -7 2 * y y + * / 7 2 y * 7 * y w", vm::integrate(vm::make_interval(Y, (K<1L>() - Y)), (((Y * Y) + (Y - W)) * (K<1L>() * (X * K<7L>()))), X)) \
  Q(2, 0, "* 12 / 1 * x x", vm::expand(((K<3L>() / X) / (X / K<4L>())))) \
  Q(3, 0, "-1000004", vm::eval(((K<-10L>() * X) - (K<5L>() - K<1L>())), vm::make_vector(K<100000L>(), K<5L>(), K<1L>()))) \
  Q(2, 1, "+ 12 z", vm::expand((Z + (K<6L>() * K<2L>())))) \
  Q(1, 0, "-1", vm::eval((K<-2L>() + (K<3L>() / X)), vm::make_vector(K<3L>()))) \
  Q(3, 0, "* / -2 3 y", vm::substitute(X, Y, (K<-4L>() / (K<6L>() / X)))) \
  Q(0, 0, "1", vm::substitute(Y, (W / K<1L>()), vm::diff((Y + (K<12L>() + K<7L>())), Y))) \
  Q(1, 0, "-2", vm::substitute(Z, ((Y / K<1L>()) / Y), (K<6L>() / K<-3L>()))) \
  Q(0, 0, "0", vm::diff((((Y - K<7L>()) / K<2L>()) + ((K<1L>() - Y) / K<-10L>())), W)) \
  Q(4, 0, "0", vm::coefficient(Y, (K<4L>() + Z))) \
  Q(1, 0, "+ -5 + * + 2 y + 2 * -1 * y y * -3 * / 1 x / 1 + 1 y", vm::simplify(((((K<-3L>() / X) / (Y + K<1L>())) - K<5L>()) + (((K<-4L>() / K<2L>()) - (K<-4L>() - Y)) * (K<2L>() - (Y * Y)))))) \
  Q(1, 0, "+ * / -2 3 * y y + * / -2 3 * z z * / 4 3 * y z", vm::integrate(vm::make_interval(Z, Y), (((K<12L>() / K<9L>()) * (X - Y)) - ((K<-2L>() * K<0L>()) * (K<-10L>() / K<-2L>()))), X)) \
  Q(1, 0, "3", vm::simplify((((K<-4L>() - K<4L>()) - (K<4L>() * K<-3L>())) - K<1L>()))) \
  Q(4, 0, "+ -28 * -7 * y y", vm::integrate(vm::make_interval((Y * Y), (K<-4L>() * K<1L>())), K<7L>(), X)) \
  Q(1, 0, "z", vm::expand(Z)) \
  Q(1, 0, "/ -7 2", vm::eval(((X / K<4L>()) - (X * X)), vm::make_vector(K<2L>()))) \
  Q(3, 0, "x", vm::substitute(K<6L>(), X, K<6L>())) \
  Q(1, 0, "1", vm::simplify(vm::expand(K<1L>()))) \
  Q(1, 0, "0", vm::coefficient(X, (K<0L>() - (Z * Z)))) \
  Q(2, 0, "0", vm::diff(((Z - X) - (Y / Y)), Y)) \
  Q(0, 0, "+ / 8 7 + * -8 x * 8 y", vm::integrate(vm::make_interval(K<5L>(), K<-3L>()), ((X - Y) - (Z / K<7L>())), Z)) \
  Q(0, 1, "702", vm::expand((((K<6L>() * K<9L>()) * K<12L>()) + ((K<4L>() * K<12L>()) + K<6L>())))) \
  Q(2, 0, "0", vm::substitute(X, (X / K<3L>()), vm::diff(((K<-1L>() / Y) * K<1L>()), Z))) \
  Q(3, 0, "+ -2 * / 5 4 x", vm::substitute(Y, ((Z - Z) / (K<-4L>() * Y)), ((X - K<2L>()) + (X / K<4L>())))) \
  Q(1, 0, "* 5 / 1 + -2 x", vm::diff(((K<5L>() * Y) / (X - K<2L>())), Y)) \
  Q(3, 0, "+ z * / -7 6 y", vm::coefficient(X, (((Y / K<6L>()) - (Z - Y)) * ((Y - K<-1L>()) - (X / K<1L>()))))) \
  Q(1, 0, "* z z", vm::diff((X * (Z * Z)), X)) \
  Q(1, 0, "0", vm::drop_dependent_terms(Y, (K<-1L>() * K<0L>()))) \
  Q(0, 0, "* -2 x", vm::simplify(((X * K<-1L>()) - X))) \
  Q(2, 0, "+ * -2 z + * / -1 2 * z z + * y z + * z * y y * / 1 2 * * y y * z z", vm::integrate(vm::make_interval(Z, (Z * Y)), ((Y + X) - K<-2L>()), X)) \
  Q(4, 0, "+ -6 + y + * -9 z * 12 / 1 y", vm::simplify(((K<-3L>() + (Y - K<3L>())) + ((K<12L>() / Y) - (Z * K<9L>()))))) \
  Q(3, 0, "+ 3 + * x x + * -2 * y y + * -1 * x y * -6 * y / 1 x", vm::integrate(vm::make_interval((K<2L>() * Y), X), ((Y + X) + (K<3L>() / X)), Z)) \
  Q(4, 1, "* 9 * * x x * * y * y y + -10 x", vm::expand((((K<9L>() * X) * (X + K<-10L>())) * ((Y * Y) * (Y * X))))) \
  Q(1, 0, "-2", vm::eval(((K<3L>() / X) - Y), vm::make_vector(K<-1L>(), K<-1L>()))) \
  Q(0, 0, "* + -1 * 8 y + * z z * -1 / 1 * z z", vm::substitute(Z, (Z * Z), (((K<-1L>() / Z) + (Z / K<1L>())) * ((K<9L>() * Y) - (Y - K<-1L>()))))) \
  Q(1, 0, "0", vm::diff(vm::expand(((Y * Y) * (K<0L>() * X))), X)) \
  Q(4, 0, "/ 1 + 6 z", vm::substitute(Y, ((Y + Y) - (X * K<-2L>())), ((K<-1L>() * K<-1L>()) / (K<7L>() - (K<1L>() - Z))))) \
  Q(4, 0, "0", vm::diff(((X - Y) - K<-4L>()), Z)) \
  Q(3, 0, "1", vm::coefficient(X, ((X - Y) - (K<9L>() - K<5L>())))) \
  Q(0, 0, "-1", vm::diff(((((K<7L>() + X) + (K<-10L>() / X)) / K<-2L>()) - (((Y + Z) + K<-1L>()) - ((K<-3L>() / K<-10L>()) / K<12L>()))), Y)) \
  Q(1, 0, "* / 1 9 x", vm::drop_dependent_terms(Z, (X / K<9L>()))) \
  Q(1, 0, "-4", vm::simplify(K<-4L>())) \
  Q(0, 0, "+ * / 1 2 * x x * -1 * x w", vm::integrate(vm::make_interval(W, (W - X)), Y, Y)) \
  Q(2, 0, "+ * -1 x * -8 z", vm::simplify((((X / K<-1L>()) - (K<0L>() * K<1L>())) - (Z * (K<-2L>() - K<-10L>()))))) \
  Q(3, 0, "+ * -5 z * 5 y", vm::integrate(vm::make_interval(Y, Z), (K<5L>() / K<-1L>()), X)) \
  Q(0, 0, "+ x * x x", vm::expand((X + (X * X)))) \
  Q(0, 0, "4", vm::eval(((X - K<2L>()) + K<0L>()), vm::make_vector(K<6L>(), K<9L>()))) \
  Q(1, 1, "0", vm::expand(K<0L>())) \
  Q(1, 0, "/ -7 2", vm::eval(((X / K<4L>()) - Y), vm::make_vector(K<2L>(), K<4L>(), K<9L>()))) \
  Q(4, 0, "* + 4 * -1 x + x y", vm::substitute(Z, ((X + Y) * (K<4L>() - X)), Z)) \
  Q(1, 0, "+ * -2 / 1 * z z * x y", vm::diff((((Z * Y) * X) - ((X / K<-4L>()) - (K<2L>() / Z))), Z)) \
  Q(2, 0, "0", vm::coefficient(Y, (Y - Y))) \
  Q(3, 0, "1", vm::diff((Y - K<4L>()), Y)) \
  Q(0, 0, "+ / -1 2 * -1 z", vm::integrate(vm::make_interval((Y * K<0L>()), K<-1L>()), (Z - X), X)) \
  Q(1, 0, "-5", vm::simplify((W - (W + K<5L>())))) \
  Q(1, 0, "+ * / -1 4 * y * y * y y + * / 3 8 * y * y y + * / -3 8 * y * w w + * / -1 8 * w * y * y y + * / -1 12 * y * w * w * w w + * / 1 12 * w * y * y * y y * / 3 8 * y * w * w w", vm::integrate(vm::make_interval(W, Y), (((K<-3L>() + W) / K<4L>()) * ((Y * X) * (X - K<1L>()))), X)) \
  Q(2, 0, "+ 1 * -1 x", vm::expand(((Z / Z) - X))) \
  Q(0, 0, "0", vm::eval((K<0L>() * (K<3L>() / X)), vm::make_vector(K<6L>()))) \
  Q(0, 0, "+ 1 * 6 x", vm::substitute(Y, (X * K<5L>()), ((Y + X) + K<1L>()))) \
  Q(0, 0, "0", vm::diff(Y, Z)) \
  Q(1, 0, "0", vm::coefficient(Z, (K<1L>() + (X / K<4L>())))) \
  Q(2, 0, "0", vm::diff((K<1L>() * K<1L>()), Y)) \
  Q(2, 0, "5", vm::drop_dependent_terms(Y, K<5L>())) \
  Q(3, 0, "* y y", vm::simplify((Y * Y))) \
  Q(0, 0, "+ -4 + * -3 y + * 12 w + * 72 * w w * / -1 2 * y y", vm::integrate(vm::make_interval((Y + K<2L>()), (K<12L>() * W)), (X + K<1L>()), X)) \
  Q(0, 0, "+ * -1 x * -1 y", vm::expand((K<0L>() - (Y + X)))) \
  Q(3, 0, "/ 2 7", vm::eval(((X - Y) / K<7L>()), vm::make_vector(K<7L>(), K<5L>()))) \
  Q(4, 0, "* -9 / 1 y", vm::substitute(Z, Y, ((K<9L>() / Z) / K<-1L>()))) \
  Q(0, 0, "* 2 z", vm::expand(vm::expand((Z + Z)))) \
  Q(3, 0, "* + 2 * / 1 y + z + * -1 x * -1 y + -7 + x y", vm::substitute(K<12L>(), (Z - (X + Y)), (((Y + X) + K<-7L>()) * ((K<12L>() / Y) - K<-2L>())))) \
  Q(2, 0, "0", vm::diff(((K<4L>() - K<-10L>()) / (K<1L>() + W)), Y)) \
  Q(2, 0, "+ * / 1 12 * z z + * / 1 12 * x * z z + * / 1 12 * y z * / 1 12 * x * y z", vm::coefficient(X, (((Z * Z) + (Y * Z)) * ((X + K<1L>()) * (X / K<12L>()))))) \
  Q(3, 0, "* / 1 2 x", vm::simplify(((K<0L>() / K<1L>()) + (X / K<2L>())))) \
  Q(4, 0, "+ -48 * 12 y", vm::integrate(vm::make_interval(K<-10L>(), K<2L>()), ((Y + X) + K<0L>()), X)) \
  Q(1, 0, "-5", vm::expand((K<-2L>() - K<3L>()))) \
  Q(0, 0, "/ -5 3", vm::eval(((K<5L>() * Y) / K<3L>()), vm::make_vector(K<12L>(), K<-1L>()))) \
  Q(1, 1, "+ 10 + * -6 y * 4 x", vm::expand((((K<5L>() - K<3L>()) * K<5L>()) - ((X * K<-4L>()) + (Y * K<6L>()))))) \
  Q(2, 0, "-4", vm::eval((K<0L>() + (X - K<2L>())), vm::make_vector(K<-2L>(), K<6L>(), K<-3L>()))) \
  Q(0, 0, "+ -1 * 9 / 1 y", vm::substitute(Z, K<9L>(), ((K<1L>() - K<2L>()) + (Z / Y)))) \
  Q(1, 0, "3", vm::diff(((K<3L>() * X) - (Y - K<9L>())), X)) \
  Q(2, 0, "+ * -4 y * y z", vm::integrate(vm::make_interval(K<4L>(), (Z + K<0L>())), Y, X)) \
  Q(3, 0, "+ x y", vm::simplify(((Y + X) / K<1L>()))) \
  Q(1, 0, "+ * -75 * y z + * -6 * * y y * z z + * 3 * y * z * z z * 3 * z * y * y y", vm::integrate(vm::make_interval(K<5L>(), (Y - Z)), (Y * (X * (Z * K<6L>()))), X)) \
  Q(0, 0, "* / 1 y + -2 + x + y z", vm::expand((((Z + X) + (K<-2L>() + Y)) / (Y / K<1L>())))) \
  Q(0, 0, "/ 75 2", vm::eval((((Y * X) * (X + K<2L>())) - (X / K<2L>())), vm::make_vector(K<-3L>(), K<12L>()))) \
  Q(4, 1, "* + -4 z + y * -1 x", vm::expand(((Z + K<-4L>()) * (Y - X)))) \
  Q(3, 0, "* / -1 3 y", vm::expand(vm::substitute(X, ((K<-3L>() / K<9L>()) + (K<0L>() / K<4L>())), ((Y * K<-3L>()) / K<9L>())))) \
  Q(2, 0, "5", vm::substitute(Y, Z, (X / (X / K<5L>())))) \
  Q(0, 0, "0", vm::diff(((X / K<4L>()) / (K<3L>() / X)), Z)) \
  Q(3, 0, "1", vm::coefficient(Z, Z)) \
  Q(1, 0, "* -1 * z / 1 * y y", vm::diff((((Z / Y) + (K<1L>() + X)) - (K<1L>() + (Z * X))), Y)) \
  Q(4, 0, "-3", vm::drop_dependent_terms(X, K<-3L>())) \
  Q(4, 0, "* / 1 + 10 + y * 2 z + x + z * 2 y", vm::simplify((((Z + Y) + (X + Y)) / ((Y - K<-10L>()) + (Z + Z))))) \
  Q(2, 0, "+ * / 1 2 * z z + * / -5 4 * x x * / 3 4 * x z", vm::integrate(vm::make_interval(X, Z), ((Y + X) - (X / K<4L>())), Y)) \
  Q(2, 0, "0", vm::expand((Y - Y))) \
  Q(2, 0, "-70002", vm::eval(((Z - K<0L>()) - ((K<6L>() / K<3L>()) - (K<-70000L>() * K<1L>()))), vm::make_vector(K<0L>(), K<9L>(), K<0L>()))) \
  Q(4, 0, "* y * z / 1 + 1 x", vm::substitute(Y, ((Z * Y) / (X + K<1L>())), Y)) \
  Q(0, 0, "1", vm::simplify(vm::diff((Z + ((K<-10L>() * K<0L>()) + (X - K<3L>()))), X))) \
  Q(0, 0, "+ y + * -1 * x y + * 4 * y / 1 z * -4 * x * y / 1 z", vm::coefficient(U, (((Y / Z) * (Y - U)) * ((K<-1L>() + X) * (Z + K<4L>()))))) \
  Q(0, 0, "0", vm::diff(((X - K<2L>()) / (X / K<4L>())), Y)) \
  Q(4, 0, "+ -2 + x * -5 y", vm::drop_dependent_terms(Z, ((X - K<2L>()) - (K<5L>() * Y)))) \
  Q(4, 0, "* 9 * / 1 x + -2 * 2 z", vm::simplify((((K<-2L>() + Z) + (Z - K<0L>())) / (X / K<9L>())))) \
  Q(2, 0, "0", vm::integrate(vm::make_interval(Y, Y), (K<2L>() / K<1L>()), X)) \
  Q(3, 0, "* / 1 * x x + -2 x", vm::simplify(((X - K<2L>()) / (X * X)))) \
  Q(0, 0, "+ / -27 4 + * -9 x + * / -9 2 z + * / 9 4 * z z * 3 * x z", vm::integrate(vm::make_interval((Z - K<5L>()), K<-2L>()), (((Z + K<1L>()) * (K<9L>() / K<-4L>())) - ((X * K<9L>()) / K<3L>())), Y)) \
  Q(4, 0, "* 5 x", vm::expand(((K<0L>() + X) - (X * K<-4L>())))) \
  Q(0, 0, "20", vm::eval((K<5L>() * X), vm::make_vector(K<4L>(), K<0L>(), K<5L>()))) \
  Q(0, 0, "+ 26 * -1 z", vm::substitute(K<0L>(), ((K<4L>() * K<5L>()) - (Z - K<6L>())), K<0L>())) \
  Q(3, 0, "+ y * -5 * z * z z", vm::simplify(vm::expand(((Y + (X - X)) - ((Z * Z) * (K<5L>() * Z)))))) \
  Q(0, 0, "+ 1 * -3 * / 1 x + z * -1 y", vm::substitute(X, ((X - K<0L>()) / (Z - Y)), (K<1L>() - (K<3L>() / X)))) \
  Q(1, 0, "0", vm::diff(((Y - X) + X), Z)) \
  Q(2, 0, "0", vm::coefficient(X, ((K<7L>() - K<12L>()) - (Z * Z)))) \
  Q(2, 0, "+ 65537 * -1 y", vm::simplify((K<1L>() + (K<65536L>() - Y)))) \
  Q(1, 0, "* / 9 2 * y / 1 x", vm::integrate(vm::make_interval((K<3L>() * Y), K<0L>()), ((K<3L>() / X) / K<-2L>()), Z)) \
  Q(3, 0, "+ 12 + x * y y", vm::expand(((Y * Y) + (K<12L>() + X)))) \
  Q(1, 0, "2", vm::eval((((X / Y) * (X + K<7L>())) + ((X - X) + (X - K<-2L>()))), vm::make_vector(K<0L>(), K<-4L>()))) \
  Q(1, 0, "* -8 / 1 x", vm::substitute(Y, ((X * K<-3L>()) - (X * X)), (K<-2L>() / (X / K<4L>())))) \
  Q(4, 0, "+ -60 * z / 1 * x x", vm::diff((((K<6L>() * Y) * K<-10L>()) + ((Z * Y) / (X * X))), Y)) \
  Q(1, 0, "0", vm::coefficient(Y, (X / (X / K<4L>())))) \
  Q(0, 0, "0", vm::diff((K<0L>() / K<3L>()), X)) \
  Q(3, 0, "+ x * -1 * x z", vm::drop_dependent_terms(Y, (((Y * Y) * (Y - K<-1L>())) - ((X * Z) - X)))) \
  Q(2, 0, "w", vm::simplify((W - K<0L>()))) \
  Q(0, 0, "0", vm::eval((Y - K<5000000000L>()), vm::make_vector(K<-3L>(), K<5000000000L>()))) \
  Q(0, 1, "+ x + * x x + * -2 z * -1 * x y", vm::expand((((K<-3L>() * Z) + (X * X)) - ((X * Y) - (X + Z))))) \
  Q(1, 0, "/ -4 3", vm::eval((((Y + X) - (K<0L>() / K<3L>())) / ((X - K<0L>()) + (Y - X))), vm::make_vector(K<7L>(), K<-3L>()))) \
  Q(0, 0, "+ -12 * 6 x", vm::substitute(Y, (Y / X), (K<6L>() * ((X - K<1L>()) - (Z / Z))))) \
  Q(0, 0, "/ 1 50000", vm::simplify(vm::substitute(X, K<2L>(), (X / K<100000L>())))) \
  Q(3, 0, "+ 7 y", vm::substitute((X / K<2L>()), X, (((Y + K<7L>()) + (K<0L>() - X)) - ((K<0L>() / Z) - (X / K<2L>()))))) \
  Q(3, 0, "0", vm::diff(((X / K<4L>()) + K<1L>()), Z)) \
  Q(0, 0, "+ * -3 / 1 x * / 1 4 x", vm::drop_dependent_terms(Y, ((X / K<4L>()) - (K<3L>() / X)))) \
  Q(3, 0, "+ 10 * 3 / 1 x", vm::simplify(((K<-10L>() / K<-1L>()) - (K<-3L>() / X)))) \
  Q(0, 0, "+ 2 * / -1 2 * y y", vm::integrate(vm::make_interval(Y, K<2L>()), Z, Z)) \
  Q(0, 0, "+ 1 + * y z * -1 * x z", vm::simplify((K<1L>() - ((Z * X) - (Y * Z))))) \
  Q(4, 0, "-1", vm::eval(((X - K<-2L>()) - (X / X)), vm::make_vector(K<-2L>()))) \
  Q(4, 1, "+ * -1 * x x * -1 * z + -10 * -1 y", vm::expand((((K<-10L>() - Y) * (Z * K<-1L>())) - (X * X)))) \
  Q(4, 0, "0", vm::eval(((X - K<3L>()) + (X - K<5L>())), vm::make_vector(K<4L>()))) \
  Q(1, 0, "-2", vm::coefficient(X, (((K<-10L>() - X) + (X * K<-1L>())) + ((Y - Z) / K<-10L>())))) \
  Q(1, 0, "0", vm::diff((K<-2L>() / K<3L>()), X)) \
  Q(1, 0, "* 5 x", vm::drop_dependent_terms(Z, ((K<-10L>() * X) / K<-2L>()))) \
  Q(0, 0, "+ -1 * 2 y", vm::simplify(((Y + K<3L>()) - (K<4L>() - Y)))) \
  Q(0, 0, "+ 1 * -1 x", vm::integrate(vm::make_interval(X, K<1L>()), ((K<3L>() / X) / (K<3L>() / X)), Z)) \
  Q(1, 0, "* / 1 4 * x / 1 + x y", vm::expand(((X / K<4L>()) / (Y + X)))) \
  Q(2, 0, "/ 5 1296", vm::eval((K<5L>() / ((Y * X) * (X * Y))), vm::make_vector(K<-3L>(), K<12L>()))) \
  Q(4, 1, "+ 84 + * -8 z * -7 y", vm::expand(((Y + (K<12L>() * K<7L>())) - ((Z + Y) * (K<4L>() - K<-4L>()))))) \
  Q(1, 0, "4", vm::eval((K<5L>() + X), vm::make_vector(K<-1L>(), K<12L>()))) \
  Q(2, 0, "+ * -1 x + * -1 z * 2 * y z", vm::substitute(K<1L>(), (K<2L>() * Z), ((K<1L>() * Y) - (Z + X)))) \
  Q(4, 0, "* 9 / 1 z", vm::expand(vm::simplify((K<9L>() / Z)))) \
  Q(3, 0, "+ 2 * 2 x", vm::substitute(Z, K<1L>(), (((Z + X) * (Z / Z)) * ((Z + K<0L>()) + Z)))) \
  Q(1, 0, "0", vm::diff(((K<12L>() - K<0L>()) + (K<2L>() - K<3L>())), Y)) \
  Q(3, 0, "/ 1 x", vm::coefficient(Z, ((K<12L>() + Z) / X))) \
  Q(1, 0, "1", vm::diff((X - (K<5L>() * Y)), X)) \
  Q(0, 0, "+ * / 1 2 * x x + * / -1 4 * x * x x + * / -1 2 * x z * / 1 4 * z * x x", vm::integrate(vm::make_interval(X, Z), ((X - K<2L>()) * (X / K<4L>())), Y)) \
  Q(1, 0, "+ / -64 9 * -8 / 1 x", vm::simplify(((((K<12L>() / K<-3L>()) * (K<1L>() * Y)) / ((Y / K<2L>()) * (X / K<1L>()))) - (((K<1L>() / K<-1L>()) * (K<0L>() - K<7L>())) + ((K<1L>() * Z) / (K<9L>() * Z)))))) \
  Q(1, 0, "-7", vm::eval((((K<4L>() * X) - (X - X)) + ((X + X) - (X * X))), vm::make_vector(K<7L>()))) \
  Q(0, 1, "3", vm::expand(K<3L>())) \
  Q(1, 0, "-31", vm::eval(((X * Y) + (X + Y)), vm::make_vector(K<9L>(), K<-4L>(), K<-3L>()))) \
  Q(1, 0, "+ 3 + x * y * z * x x", vm::substitute((X * Z), ((Y * Z) * (X * X)), ((X + K<3L>()) + (X * Z)))) \
  Q(1, 0, "w", vm::expand(vm::simplify((Y - (Y - W))))) \
  Q(2, 0, "x", vm::substitute(Y, ((K<1L>() * K<-10L>()) / (K<0L>() / K<4L>())), X)) \
  Q(2, 0, "0", vm::diff(((X / K<4L>()) * K<3L>()), Y)) \
  Q(1, 0, "* -4 y", vm::drop_dependent_terms(Z, ((K<2L>() * K<-2L>()) * (Z + Y)))) \
  Q(4, 0, "+ -2 + x * x x", vm::simplify(((X * X) + (X - K<2L>())))) \
  Q(4, 0, "+ -3 + * / -17 7 z * / 8 7 * z z", vm::integrate(vm::make_interval(K<-1L>(), (K<-4L>() + Z)), ((Z / K<7L>()) + (K<1L>() + Z)), X)) \
  Q(1, 0, "* + -90 * -10 y + 9 + z * z z", vm::expand((((Y + K<9L>()) * (K<1L>() * K<-10L>())) * ((K<9L>() + Z) + (Z * Z))))) \
  Q(1, 0, "/ 49 12", vm::eval(((X / (X - K<-1L>())) + ((K<4L>() / X) - (Y / K<-2L>()))), vm::make_vector(K<3L>(), K<4L>()))) \
  Q(3, 0, "+ * -3 / 1 x * x + 7 * -1 x", vm::substitute(K<-2L>(), ((K<7L>() - X) * X), (K<-2L>() - (K<3L>() / X)))) \
  Q(3, 0, "+ * -1 y + * -1 * x z * -1 * x + -2 z", vm::diff(vm::expand((((K<-2L>() + Y) - (Z * Y)) - ((Z - K<2L>()) * (Z * X)))), Z)) \
  Q(1, 0, "/ -2 3", vm::drop_dependent_terms(X, (K<-2L>() / K<3L>()))) \
  Q(2, 0, "+ 1 * -5 y", vm::simplify((K<1L>() - (K<5L>() * Y)))) \
  Q(1, 0, "0", vm::integrate(vm::make_interval(W, W), (((K<-10L>() - X) - Y) / K<5L>()), Y)) \
  Q(1, 1, "9", vm::expand(K<9L>())) \
  Q(1, 0, "96", vm::eval(((Y / (Z - X)) + (Z + (Y * X))), vm::make_vector(K<9L>(), K<9L>(), K<12L>()))) \
  Q(2, 0, "70000", vm::substitute(Z, K<-2L>(), ((K<-70000L>() * Z) / K<2L>()))) \
  Q(0, 0, "+ 7 + x + * / -1 2 y * / 1 6 z", vm::expand(vm::expand((((Y / K<-2L>()) + (X + K<7L>())) + ((K<-10L>() / K<6L>()) * (Z / K<-10L>())))))) \
  Q(3, 0, "-1", vm::coefficient(X, (K<0L>() - (X - K<2L>())))) \
  Q(0, 0, "0", vm::diff(X, W)) \
  Q(1, 0, "+ y * -1 w", vm::drop_dependent_terms(X, (Y - W))) \
  Q(1, 0, "0", vm::simplify(K<0L>())) \
  Q(1, 0, "0", vm::integrate(vm::make_interval(Y, Y), ((X * X) - (X * X)), X)) \
  Q(2, 0, "* -3 / 1 z", vm::expand(((K<1L>() * K<-3L>()) / Z))) \
  Q(1, 0, "2", vm::eval((Y + K<1L>()), vm::make_vector(K<1L>(), K<1L>(), K<-2L>()))) \
  Q(0, 0, "+ x y", vm::substitute(K<1L>(), (Y + X), K<1L>())) \
  Q(4, 0, "* -1 z", vm::diff((((K<3L>() / K<1L>()) - (X * Z)) - ((K<12L>() + Z) + (Y - K<5L>()))), X)) \
  Q(3, 0, "+ 7 + * -1 y * 6 / 1 z", vm::coefficient(X, (((K<1L>() + Y) + (X - K<3L>())) * ((K<6L>() / Z) - (Y - K<7L>()))))) \
  Q(0, 0, "-3", vm::simplify((K<-2L>() - K<1L>()))) \
  Q(4, 0, "+ x y", vm::integrate(vm::make_interval((K<-1L>() + X), X), (X + Y), Z)) \
  Q(1, 0, "+ * x x * -1 x", vm::simplify(((X * X) - X))) \
  Q(4, 0, "+ * x * x x + * 5 * y y + * -1 * x y * -5 * y * x x", vm::integrate(vm::make_interval(Y, (X * X)), (X - (K<5L>() * Y)), Z)) \
  Q(3, 1, "+ -3 + * y y + * -1 y * -1 * x x", vm::expand(((K<-2L>() + (Y * Y)) - ((X * X) + (Y + K<1L>()))))) \
  Q(1, 0, "0", vm::eval(((Y / K<1L>()) * (K<3L>() - Y)), vm::make_vector(K<-10L>(), K<3L>(), K<-4L>()))) \
  Q(0, 0, "* / 1 7 y", vm::substitute(Z, Y, (Z / K<7L>()))) \
  Q(2, 0, "0", vm::diff(vm::simplify(((X / K<-3L>()) + (K<1L>() * K<1L>()))), Z)) \
  Q(0, 0, "* y * z / 1 + y * / -1 12 x", vm::substitute((Y - X), ((K<0L>() - X) / K<12L>()), ((Y * Z) / (Y + (Y - X))))) \
  Q(4, 0, "* / 2 7 * x y", vm::diff(((X * (Y * X)) / K<7L>()), X)) \
  Q(1, 0, "+ -10 * -2 y", vm::integrate(vm::make_interval((K<2L>() + Z), Z), (((Y + K<7L>()) + (K<6L>() / K<-3L>())) / K<1L>()), X)) \
  Q(2, 1, "+ 10 * -2 z", vm::expand(((Z * K<-1L>()) - (K<-10L>() + Z)))) \
  Q(3, 0, "/ -8 3", vm::eval(((Y + K<1L>()) / K<-3L>()), vm::make_vector(K<3L>(), K<7L>()))) \
  Q(0, 0, "+ -6 * -1 z", vm::substitute(Y, ((K<2L>() * K<-3L>()) - (K<1L>() * Z)), Y)) \
  Q(4, 0, "+ / -7 3 * -1 x", vm::diff(((((K<-3L>() - Y) * (X + K<2L>())) - ((Y / K<3L>()) - (K<6L>() * K<1L>()))) - (((K<5000000000L>() * X) * Z) - ((X * K<6L>()) + (K<6L>() * K<9L>())))), Y)) \
  Q(4, 0, "0", vm::coefficient(Y, (((Z * X) + (K<-10L>() + K<12L>())) + ((K<-10L>() * Z) / (K<-10L>() + Z))))) \
  Q(2, 0, "/ 1 * x x", vm::diff(((((X - X) - (Z / K<-2L>())) + ((Y / K<-2L>()) / X)) / (Y / K<2L>())), X)) \
  Q(4, 0, "+ 25 * -5 y", vm::integrate(vm::make_interval(Y, K<5L>()), K<5L>(), Z)) \
  Q(1, 0, "+ * / -1 3 w + * / 1 3 x + * y + -2 y * -12 * y / 1 x", vm::simplify(((((K<-2L>() + Y) * (Y - K<0L>())) + ((W - X) / K<-3L>())) - (((K<1L>() * Y) * K<-3L>()) / ((K<0L>() + X) / (K<-1L>() + K<-3L>())))))) \
  Q(3, 0, "+ / -1 2 y", vm::integrate(vm::make_interval((K<1L>() - Y), Y), X, X)) \
  Q(1, 0, "+ -9 + x + y z", vm::expand(((Y + Z) + (X - K<9L>())))) \
  Q(1, 0, "3", vm::eval((K<12L>() - X), vm::make_vector(K<9L>()))) \
  Q(1, 1, "0", vm::expand((((K<-4L>() * X) * (Z + K<-4L>())) * K<0L>()))) \
  Q(3, 0, "1", vm::diff(vm::expand((Z - ((Y - K<7L>()) * K<5000000000L>()))), Z))
#endif
#if CTM_SLICE == 7
#define CTM_CASES(Q) \
  Q(3, 0, "/ 1 25", vm::substitute(Y, (K<5L>() * K<-10L>()), ((K<-2L>() / Y) / K<1L>()))) \
  Q(4, 0, "* -3 / 1 * + x y + x y", vm::diff((K<3L>() / (Y + X)), X)) \
  Q(0, 0, "+ / -1 2 * / 1 4 x", vm::coefficient(X, ((X - K<2L>()) * (X / K<4L>())))) \
  Q(4, 0, "0", vm::diff((X / K<1L>()), Z)) \
  Q(0, 0, "0", vm::drop_dependent_terms(X, X)) \
  Q(4, 0, "0", vm::simplify(((K<0L>() / Z) * (K<1L>() - Y)))) \
  Q(1, 0, "+ * y y + * / -19 2 y * x y", vm::integrate(vm::make_interval(Y, K<0L>()), (((K<5L>() - Y) - X) + (K<9L>() / K<2L>())), Z)) \
  Q(3, 0, "+ 2 z", vm::simplify((Z + K<2L>()))) \
  Q(2, 0, "+ -12 * -3 y", vm::integrate(vm::make_interval(Y, (K<1L>() - K<5L>())), K<3L>(), Z)) \
  Q(0, 0, "* 25 * y y", vm::expand(((K<5L>() * Y) * (K<5L>() * Y)))) \
  Q(3, 0, "4", vm::eval((K<3L>() + (X * X)), vm::make_vector(K<-1L>()))) \
  Q(3, 1, "4", vm::expand(K<4L>())) \
  Q(1, 0, "1", vm::diff(((Z - K<1L>()) - (Z / Z)), Z)) \
  Q(2, 0, "0", vm::coefficient(X, ((K<4L>() / Z) - (Y / K<1L>())))) \
  Q(1, 0, "2", vm::diff((Y + Y), Y)) \
  Q(0, 0, "+ / -2 3 * -3 z", vm::drop_dependent_terms(Y, (((X - X) + (K<-4L>() / K<6L>())) - ((Z + Z) + Z)))) \
  Q(2, 0, "/ -2 7", vm::simplify((((K<4L>() / K<7L>()) + (K<0L>() * K<-3L>())) - ((K<-2L>() * K<-3L>()) / K<7L>())))) \
  Q(3, 0, "+ / -21 2 + * -21 x * -21 y", vm::integrate(vm::make_interval(K<7L>(), (K<7L>() * K<-2L>())), (((X + Y) - K<3L>()) - Z), Z)) \
  Q(2, 0, "* -2 y", vm::expand((K<-2L>() * Y))) \
  Q(3, 0, "2", vm::eval(((Y - K<3L>()) / (K<6L>() - Y)), vm::make_vector(K<4L>(), K<5L>(), K<-10L>()))) \
  Q(0, 0, "z", vm::substitute(K<-2L>(), Z, K<-2L>())) \
  Q(0, 0, "+ 120 + * -18 x * x y", vm::substitute(Z, (X - K<4L>()), vm::expand((((K<12L>() * X) + (X * Y)) - ((Z + Z) * (K<3L>() + K<12L>())))))) \
  Q(4, 0, "+ 6 * x x", vm::substitute(Z, ((K<-3L>() * Z) + (K<0L>() + X)), ((X * X) + (K<7L>() - K<1L>())))) \
  Q(1, 0, "-1", vm::diff(((K<4L>() - X) + (Y * Y)), X)) \
  Q(4, 0, "+ / -23 3 z", vm::coefficient(Y, (((K<-10L>() + Z) * (X + Y)) + ((K<1L>() - Y) * (K<7L>() / K<-3L>()))))) \
  Q(0, 0, "1", vm::diff((K<1L>() * (Y + X)), Y)) \
  Q(2, 0, "* 3 / 1 x", vm::drop_dependent_terms(Y, ((K<3L>() / X) + (K<5L>() * Y)))) \
  Q(1, 0, "* x y", vm::simplify(((K<0L>() + X) * (Y / K<1L>())))) \
  Q(0, 0, "+ -40 + * -10 y * 10 w", vm::integrate(vm::make_interval(Y, (K<-4L>() + W)), (((K<12L>() + Y) + (K<-2L>() - Y)) / K<1L>()), X)) \
  Q(1, 0, "7", vm::simplify(K<7L>())) \
  Q(1, 0, "0", vm::integrate(vm::make_interval(Y, Y), K<7L>(), Z)) \
  Q(0, 0, "0", vm::expand((((X - X) / K<6L>()) / ((X * K<1L>()) + (K<1L>() + X))))) \
  Q(1, 0, "0", vm::eval(((X / K<4L>()) + (X / K<4L>())), vm::make_vector(K<0L>(), K<6L>()))) \
  Q(3, 1, "+ -4 + * -1 y * y z", vm::expand(((Y * Z) + (K<-4L>() - Y)))) \
  Q(4, 0, "-9", vm::eval(((X * K<-4L>()) + (X / K<1L>())), vm::make_vector(K<3L>(), K<-4L>()))) \
  Q(1, 0, "/ -1 2", vm::substitute(W, ((K<2L>() + W) - (K<-2L>() + W)), (K<-2L>() / W))) \
  Q(0, 0, "* 5 x", vm::expand(vm::simplify((X * K<5L>())))) \
  Q(0, 0, "* -3 / 1 + -4 * 4 / 1 + / -2 9 * 2 y", vm::substitute(X, ((Y + Y) + (K<-2L>() / K<9L>())), (K<-3L>() / ((K<-4L>() - K<0L>()) - (K<-4L>() / X))))) \
  Q(4, 0, "0", vm::diff(((K<5L>() * Y) / (K<5L>() * Y)), Y)) \
  Q(0, 0, "0", vm::coefficient(Z, Y)) \
  Q(3, 0, "0", vm::diff(((K<6L>() + Z) / (K<4L>() / K<3L>())), Y)) \
  Q(1, 0, "+ 15 / 1 + 12 y", vm::drop_dependent_terms(X, (((X / K<1L>()) - (K<-10L>() - K<5L>())) + ((K<1L>() * K<1L>()) / (K<12L>() + Y))))) \
  Q(2, 0, "* 4 * x / 1 * z z", vm::simplify(((X / Z) * (K<4L>() / Z)))) \
  Q(1, 0, "* -14 y", vm::integrate(vm::make_interval((K<3L>() - K<-1L>()), K<-10L>()), Y, X)) \
  Q(0, 0, "+ * / 1 9 z * 12 * / 1 x + 9 z", vm::expand((((Z + K<9L>()) / (X / K<12L>())) + (Z / K<9L>())))) \
  Q(2, 0, "9", vm::eval((K<12L>() + (K<-3L>() * K<1L>())), vm::make_vector(K<0L>()))) \
  Q(2, 1, "y", vm::expand((Y + ((Y - Y) * (Y + X))))) \
  Q(1, 0, "/ -3 2", vm::eval(((Y - X) * (K<1L>() / K<2L>())), vm::make_vector(K<3L>(), K<0L>()))) \
  Q(1, 0, "-13", vm::substitute(Z, K<3L>(), (K<-10L>() - Z))) \
  Q(0, 0, "-2", vm::diff((X - ((X + X) + (X - Y))), X)) \
  Q(1, 0, "+ / -4 5 * / -1 5 y", vm::drop_dependent_terms(X, (((K<0L>() / K<2L>()) / K<2L>()) - ((Y - K<-4L>()) / K<5L>())))) \
  Q(4, 0, "* 5 / 1 x", vm::simplify((K<5L>() / X))) \
  Q(1, 0, "+ * -12 * z z * 48 z", vm::integrate(vm::make_interval(Z, K<4L>()), (K<12L>() * Z), X)) \
  Q(4, 0, "+ * / -1 3 * * x x * z z * / 1 12 * x z", vm::substitute(Y, (Z * (X + X)), (((Y / K<2L>()) - (Y * Y)) / K<12L>()))) \
  Q(2, 0, "1", vm::diff((Y + K<0L>()), Y)) \
  Q(3, 0, "0", vm::coefficient(Z, ((Y + X) * Y))) \
  Q(4, 0, "0", vm::diff(((X * (X / Y)) / K<2L>()), Z)) \
  Q(4, 0, "* / -1 2 x", vm::drop_dependent_terms(Z, (X / K<-2L>()))) \
  Q(2, 0, "* 6 y", vm::simplify(((K<5L>() * Y) + Y))) \
  Q(0, 0, "+ -14 + * -1 * y y * / 5 2 y", vm::integrate(vm::make_interval(K<4L>(), K<3L>()), (((Y + Z) + (Y * Y)) - (Z * (K<-3L>() + Y))), Z)) \
  Q(0, 0, "+ -2 * 5 y", vm::simplify(((K<5L>() * Y) + K<-2L>()))) \
  Q(3, 0, "+ * 2 y * / 1 5 * y y", vm::integrate(vm::make_interval(K<-10L>(), Y), (Y / K<5L>()), X)) \
  Q(1, 0, "* / 1 + 131072 * 2 z + 15 * -1 x", vm::expand(((K<3L>() - (X - K<12L>())) / ((Z + K<65536L>()) / (K<1L>() / K<2L>()))))) \
  Q(1, 0, "6", vm::eval(((K<-1L>() * X) + K<2L>()), vm::make_vector(K<-4L>(), K<0L>()))) \
  Q(1, 0, "+ / 1 9 * 2 z", vm::substitute(X, K<-2L>(), ((K<1L>() / K<9L>()) + (Z + Z)))) \
  Q(2, 0, "0", vm::simplify(vm::expand((((X * K<1L>()) * (K<3L>() * Z)) * ((K<4L>() - K<4L>()) * (K<5L>() * X)))))) \
  Q(0, 0, "* / 1 3 * x x", vm::substitute(Z, K<-1L>(), (X / (K<3L>() / X)))) \
  Q(4, 0, "0", vm::diff((K<-2L>() / (K<5L>() * Y)), Z)) \
  Q(0, 0, "0", vm::coefficient(Z, (K<-4L>() * K<-2L>()))) \
  Q(1, 0, "0", vm::diff((K<5L>() - K<12L>()), Y)) \
  Q(1, 0, "1", vm::drop_dependent_terms(Y, (K<1L>() - (K<5L>() * Y)))) \
  Q(0, 0, "* 3 * x * / 1 y + 1 x", vm::simplify((((K<2L>() + K<1L>()) * (X / Y)) * ((Y / Y) * (X + K<1L>()))))) \
  Q(0, 0, "0", vm::integrate(vm::make_interval(Z, Y), ((K<3L>() * K<0L>()) * (Z / K<4L>())), X)) \
  Q(0, 0, "+ -28 * 7 z", vm::simplify(((K<-3L>() - K<4L>()) * (K<4L>() - Z)))) \
  Q(3, 0, "/ -1 5", vm::integrate(vm::make_interval(K<3L>(), K<1L>()), ((K<-1L>() / K<-10L>()) - (X - X)), Y)) \
  Q(1, 0, "* / 1 * x x + x y", vm::expand(((Y + X) / (X * X)))) \
  Q(0, 0, "/ -1 13", vm::eval((((Y + Z) / K<-4L>()) / ((X + K<5L>()) + (Y + K<1L>()))), vm::make_vector(K<7L>(), K<0L>(), K<4L>()))) \
  Q(3, 1, "* 4 y", vm::expand(((K<0L>() + K<4L>()) * Y))) \
  Q(1, 0, "/ 7 45", vm::eval(((X + (Y + Y)) / ((K<-3L>() * Y) * (X - K<9L>()))), vm::make_vector(K<6L>(), K<-10L>()))) \
  Q(0, 0, "+ 3 x", vm::substitute((K<5L>() * Y), X, (K<3L>() + (K<5L>() * Y)))) \
  Q(2, 0, "* -1 y", vm::substitute(Z, (Y + Y), vm::expand(((Y - Z) - (X - X))))) \
  Q(0, 0, "0", vm::substitute(Y, X, ((X - K<2L>()) - (X - K<2L>())))) \
  Q(0, 0, "+ * -1 y + * -1 * x / 1 z * -1 * / 1 z + -4 x", vm::diff((((K<0L>() - Y) * (K<-1L>() + X)) - ((X + K<-4L>()) * (X / Z))), X)) \
  Q(0, 0, "0", vm::drop_dependent_terms(Y, ((K<5L>() * Y) / (K<3L>() / X)))) \
  Q(0, 0, "* 25 * y y", vm::simplify(((K<5L>() * Y) * (K<5L>() * Y)))) \
  Q(0, 0, "+ * y y * -1 * x y", vm::integrate(vm::make_interval((K<0L>() + X), Y), Y, W)) \
  Q(1, 0, "* + -3 x + 12 y", vm::expand((((X - K<7L>()) + K<4L>()) * (K<12L>() + Y)))) \
  Q(0, 0, "9", vm::eval(((K<3L>() / X) * (X * X)), vm::make_vector(K<3L>(), K<0L>()))) \
  Q(1, 1, "+ w + * -1 y * x w", vm::expand(((W - Y) + (X * W)))) \
  Q(4, 0, "-14", vm::eval(((Z / X) + (K<-10L>() + K<-10L>())), vm::make_vector(K<2L>(), K<-4L>(), K<12L>()))) \
  Q(1, 0, "* -1 z", vm::substitute(Y, (X + K<3L>()), (K<0L>() - Z))) \
  Q(2, 0, "0", vm::diff(K<4L>(), Y)) \
  Q(4, 0, "* -8 / 1 x", vm::drop_dependent_terms(Y, (K<-2L>() / (X / K<4L>())))) \
  Q(0, 0, "2", vm::simplify(K<2L>())) \
  Q(2, 0, "+ 14 + * -7 x + * -2 y * x y", vm::integrate(vm::make_interval(K<7L>(), Y), (K<-2L>() + X), W)) \
  Q(3, 0, "+ x z", vm::simplify(((K<0L>() + Z) - (K<-1L>() * X)))) \
  Q(4, 0, "+ 56 * 8 x", vm::integrate(vm::make_interval((K<-10L>() + K<3L>()), X), (K<-1L>() + K<9L>()), Y)) \
  Q(0, 1, "* 2 * y * * x x + 1 + x * 2 z", vm::expand((((K<2L>() * Z) + (X - K<-1L>())) * ((X * X) * (Y + Y))))) \
  Q(1, 0, "5", vm::eval((Y - X), vm::make_vector(K<-2L>(), K<3L>()))) \
  Q(0, 0, "* 20 y", vm::substitute(Z, (K<3L>() - K<-10L>()), ((Y * Z) + (K<7L>() * Y)))) \
  Q(1, 0, "1", vm::diff((Y - K<5L>()), Y)) \
  Q(4, 0, "0", vm::coefficient(Y, (K<6L>() * ((X * X) - (K<-1L>() * X))))) \
  Q(1, 0, "0", vm::diff((K<-2L>() / X), Z)) \
  Q(0, 0, "+ * / -1 12 x * / 1 12 z", vm::drop_dependent_terms(Y, ((Z - X) / K<12L>()))) \
  Q(3, 0, "* x y", vm::simplify((X * Y))) \
  Q(0, 0, "/ -1 4", vm::eval(((K<-1L>() - (K<1L>() * X)) / K<4L>()), vm::make_vector(K<0L>(), K<-2L>()))) \
  Q(1, 1, "+ * -1 y * 30 * z z", vm::expand((((K<0L>() + Y) + (K<-2L>() * Y)) + ((K<-10L>() * K<-3L>()) * (Z * Z))))) \
  Q(0, 0, "-9", vm::eval(((X * X) / (K<3L>() / X)), vm::make_vector(K<-3L>(), K<-10L>()))) \
  Q(0, 0, "* 15 * y / 1 + -4 * / -1 4 x", vm::substitute(X, ((X / K<-4L>()) - (K<0L>() + K<4L>())), ((K<5L>() * Y) * (K<3L>() / X)))) \
  Q(0, 0, "+ y * -1 z", vm::expand(vm::substitute((X - K<7L>()), (Y - X), ((X - K<7L>()) - (Z - X))))) \
  Q(1, 0, "-2", vm::coefficient(X, (K<-2L>() * X))) \
  Q(3, 0, "+ 3 * 3 / 1 x", vm::simplify(((K<3L>() / X) + K<3L>()))) \
  Q(2, 0, "+ * -12 y + * 4 * w w + * w * y y * / -1 3 * y * w * w w", vm::integrate(vm::make_interval((Y * W), K<12L>()), (((W / K<3L>()) * (W + K<0L>())) - Y), X)) \
  Q(4, 0, "* / 1 2 * / 1 z * / 1 + -10 x + z + * -1 y * y / 1 z", vm::expand((((Y / Z) - (Y - Z)) / ((Z + Z) * (X + K<-10L>()))))) \
  Q(1, 0, "/ 61 15", vm::eval((((Z / K<-1L>()) * (Z * Y)) + ((K<6L>() / K<-10L>()) * (Z / X))), vm::make_vector(K<9L>(), K<-4L>(), K<-1L>()))) \
  Q(3, 1, "0", vm::expand((((X - K<9L>()) + (K<5L>() * K<9L>())) * ((K<0L>() * K<1L>()) * X)))) \
  Q(1, 0, "0", vm::eval((X + Y), vm::make_vector(K<-1L>(), K<1L>(), K<1L>()))) \
  Q(1, 0, "+ * -1 y * / 6 5 z", vm::substitute(U, (X * (Y / K<12L>())), (((X - X) + (Z + U)) - ((U + Y) - (Z / K<5L>()))))) \
  Q(3, 0, "1", vm::diff(((Y - Z) * (K<-2L>() - K<-3L>())), Y)) \
  Q(1, 0, "0", vm::coefficient(Z, (Y + (K<3L>() / X)))) \
  Q(3, 0, "0", vm::diff((Y + (K<5L>() * Y)), Z)) \
  Q(1, 0, "+ -2 + x * 3 / 1 x", vm::drop_dependent_terms(Y, ((X - K<2L>()) + (K<3L>() / X)))) \
  Q(2, 0, "+ y * / 5 4 x", vm::simplify(((X / K<4L>()) + (Y + X)))) \
  Q(1, 0, "0", vm::integrate(vm::make_interval(K<1L>(), K<-1L>()), ((W / K<-2L>()) * (K<9L>() / K<6L>())), W)) \
  Q(0, 0, "1", vm::expand((K<0L>() + K<1L>()))) \
  Q(1, 0, "-11", vm::eval((K<-1L>() + K<-10L>()), vm::make_vector(K<-10L>(), K<6L>()))) \
  Q(1, 1, "* 3 * z + z + * -1 y * -1 * x z", vm::expand((((Z * K<1L>()) * (K<2L>() + K<1L>())) * ((Z - Y) - (Z * X))))) \
  Q(0, 0, "1", vm::diff(vm::expand(((K<2L>() / Z) - (X - Y))), Y)) \
  Q(2, 0, "0", vm::substitute(Z, ((K<2L>() - K<2L>()) * K<7L>()), ((Z * Z) - (Z / K<7L>())))) \
  Q(4, 0, "0", vm::diff(K<-4L>(), Y)) \
  Q(0, 0, "-1", vm::drop_dependent_terms(X, K<-1L>())) \
  Q(0, 0, "1", vm::simplify(K<1L>())) \
  Q(0, 0, "+ -4 + * -2 y * 2 x", vm::integrate(vm::make_interval((X - K<2L>()), Y), K<-2L>(), Z)) \
  Q(0, 0, "-1", vm::simplify(((K<0L>() / Z) - K<1L>()))) \
  Q(1, 0, "+ * -1 * z z + * / 1 4 * z * z z + * y z * / -1 4 * z * y y", vm::integrate(vm::make_interval(Z, Y), ((Z / K<2L>()) * (K<2L>() - X)), X)) \
  Q(3, 0, "+ 16 + * 4 y * -1 * + -1 x + 9 * -1 x", vm::expand((((Y + K<4L>()) * K<4L>()) - ((X - K<1L>()) * (K<9L>() - X))))) \
  Q(2, 0, "/ 81 4", vm::eval(((X / K<4L>()) + (K<5L>() * Y)), vm::make_vector(K<1L>(), K<4L>(), K<4L>()))) \
  Q(3, 1, "+ y + * -1 x * -2 * x + -2 z", vm::expand((((X * K<-2L>()) * (Z + K<-2L>())) + ((Z - Z) + (Y - X))))) \
  Q(1, 0, "/ 1 7", vm::eval((Z / Y), vm::make_vector(K<1L>(), K<7L>(), K<1L>()))) \
  Q(3, 0, "+ * -2 z + * x / 1 z * / 1 3 * z + y z", vm::substitute(U, Z, (((X / U) - (Z + U)) - ((U / K<-3L>()) * (U + Y))))) \
  Q(0, 0, "1", vm::diff(((K<6L>() + K<1L>()) + (K<-70000L>() + Y)), Y)) \
  Q(0, 0, "0", vm::coefficient(X, (W - (K<6L>() + K<0L>())))) \
  Q(1, 0, "1", vm::diff((K<1L>() + Y), Y)) \
  Q(0, 0, "* / 1 2 * y z", vm::drop_dependent_terms(X, (((X * Y) + (Y / K<2L>())) * Z))) \
  Q(0, 0, "* 2 * y * z / 1 x", vm::expand(((Y + Y) * (Z / X)))) \
  Q(4, 0, "41", vm::eval(((X * K<7L>()) - (X / X)), vm::make_vector(K<6L>(), K<1L>()))) \
  Q(2, 1, "+ x + y * y y", vm::expand((((K<-3L>() * K<1L>()) * (K<0L>() * Y)) + ((Y * Y) + (Y + X))))) \
  Q(0, 0, "+ 15 + z * -1 x", vm::substitute(Y, Z, vm::simplify(((K<6L>() + Y) + (K<9L>() - X))))) \
  Q(4, 0, "0", vm::coefficient(X, (((X + Y) * (K<0L>() * Y)) + ((K<0L>() + Z) + (Z - Z))))) \
  Q(2, 0, "-1", vm::diff((K<0L>() - X), X)) \
  Q(0, 0, "0", vm::drop_dependent_terms(Z, ((K<5L>() * Y) * K<0L>()))) \
  Q(4, 0, "+ -4 * z z", vm::simplify((K<-4L>() + (Z * Z)))) \
  Q(0, 0, "* -42 x", vm::integrate(vm::make_interval(K<-10L>(), K<4L>()), (X * Y), Y)) \
  Q(4, 0, "+ -2 * 9 x", vm::simplify(((X * K<9L>()) + K<-2L>()))) \
  Q(1, 0, "63", vm::eval((((K<-3L>() * K<-4L>()) * Y) + ((K<2L>() - K<-1L>()) + (Z * X))), vm::make_vector(K<12L>(), K<4L>(), K<1L>()))) \
  Q(3, 0, "x", vm::substitute((X * X), (X - K<-3L>()), ((X * X) - K<3L>()))) \
  Q(1, 0, "+ 3 + * / 1 6 z * 2 * y / 1 + y z", vm::simplify(vm::simplify((((Y + Y) / (Y + Z)) - ((K<-1L>() - K<2L>()) - (Z / K<6L>())))))) \
  Q(2, 0, "* -10 z", vm::substitute(Y, (K<3L>() + X), (K<-10L>() * Z))) \
  Q(1, 0, "0", vm::diff((K<2L>() / K<1L>()), Z)) \
  Q(1, 0, "+ * / 1 4 y * / 1 4 z", vm::coefficient(U, (((U - K<0L>()) * (Y + Z)) / K<4L>()))) \
  Q(4, 0, "* -1 * x x", vm::simplify((K<0L>() - (X * X)))) \
  Q(1, 0, "+ * 30 * y y + * 70 y * 10 * x y", vm::integrate(vm::make_interval((K<-3L>() * Y), (K<7L>() + X)), ((K<5L>() * Y) + (K<5L>() * Y)), Z)) \
  Q(1, 0, "+ * -2 y * z / 1 x", vm::simplify(((K<-2L>() * Y) + (Z / X)))) \
  Q(0, 0, "+ * 2 y + * / -9 4 * x y * / 1 4 * y * x x", vm::integrate(vm::make_interval(Y, (Y * X)), ((X / K<4L>()) + K<-2L>()), Z)) \
  Q(0, 0, "* -1 * y z", vm::expand((((K<3L>() - K<0L>()) * (Z / K<-3L>())) * Y))) \
  Q(2, 0, "1", vm::eval(((X + Y) - (X * Y)), vm::make_vector(K<1L>(), K<0L>()))) \
  Q(2, 0, "+ -9 * / -2 3 x", vm::substitute(Y, K<4L>(), ((K<4L>() - (X / K<-3L>())) - ((K<2L>() + X) - (K<-10L>() - K<1L>()))))) \
  Q(0, 0, "0", vm::expand(vm::simplify(K<0L>()))) \
  Q(1, 0, "* + 3 * y / 1 x + * -18 y * 18 x", vm::drop_dependent_terms(Z, (((K<3L>() * K<1L>()) + (Y / X)) * ((K<9L>() * K<2L>()) * (X - Y))))) \
  Q(1, 0, "+ y * -1 x", vm::simplify((Y - X))) \
  Q(0, 0, "+ -4 + * / -1 6 * z z + * / 1 3 x + * / 1 6 * x x + * / 5 3 z + * -2 * x z + * / -1 3 * z * x x * / 1 3 * x * z z", vm::integrate(vm::make_interval((Z - K<6L>()), X), (((X * Z) - (Y + K<1L>())) / K<-3L>()), Y)) \
  Q(2, 0, "+ 3 * -3 / 1 x", vm::simplify((K<3L>() - (K<3L>() / X)))) \
  Q(0, 0, "2", vm::eval((Y - X), vm::make_vector(K<5L>(), K<7L>(), K<2L>()))) \
  Q(2, 1, "* 3 * y * * z z * + -1 z + x z", vm::expand((((Z * Y) * (Z + X)) * ((Z * K<3L>()) * (Z + K<-1L>()))))) \
  Q(3, 0, "1", vm::eval((X * X), vm::make_vector(K<-1L>()))) \
  Q(1, 0, "0", vm::substitute(Z, Y, (((X - X) / K<100000L>()) * ((X / K<-3L>()) * (Y / K<100000L>()))))) \
  Q(3, 0, "0", vm::simplify(vm::diff((Y - K<7L>()), Z))) \
  Q(3, 0, "1", vm::substitute(X, (K<-3L>() / Y), ((X / K<4L>()) / (X / K<4L>())))) \
  Q(1, 0, "* / 1 * x x + -4 z", vm::diff((((Z - K<3L>()) - K<1L>()) * (Y / (X * X))), Y)) \
  Q(0, 0, "/ 1 y", vm::coefficient(Z, (Z / Y))) \
  Q(0, 0, "0", vm::diff((X - K<0L>()), Z)) \
  Q(1, 0, "1", vm::drop_dependent_terms(W, (K<1L>() / K<1L>()))) \
  Q(2, 0, "+ 7 * 4 * x + -4 z", vm::simplify((K<7L>() + (((X / Z) * (Z - K<4L>())) * ((Z * K<3L>()) + (K<0L>() + Z)))))) \
  Q(4, 0, "+ * x x * -1 * x z", vm::integrate(vm::make_interval(Z, X), ((Y + X) - Y), Y)) \
  Q(2, 0, "+ -13 * 2 z", vm::expand(((Z + (K<4L>() / K<-1L>())) + ((K<-4L>() + K<7L>()) - (K<12L>() - Z))))) \
  Q(0, 0, "-21", vm::eval((((K<2L>() * X) * (K<7L>() / Z)) * ((Z * Z) - (K<0L>() + X))), vm::make_vector(K<1L>(), K<-1L>(), K<-2L>()))) \
  Q(0, 0, "+ / 7 4 * / 1 4 x", vm::substitute(Z, ((K<-4L>() + Z) / (Z - K<6L>())), ((K<7L>() + X) / K<4L>()))) \
  Q(3, 0, "* + 42 * x x + 4 + x + y z", vm::simplify(vm::expand((((K<4L>() + Y) + (X + Z)) * ((K<6L>() * K<7L>()) + (X * X)))))) \
  Q(0, 0, "/ 1 4", vm::substitute(X, K<1L>(), ((X / K<4L>()) - K<0L>()))) \
  Q(4, 0, "* -3 / 1 * x x", vm::diff(((K<3L>() / X) + Y), X)) \
  Q(0, 0, "0", vm::coefficient(Z, (K<12L>() - K<2L>()))) \
  Q(4, 0, "0", vm::diff((K<4L>() * Y), X)) \
  Q(4, 0, "2", vm::integrate(vm::make_interval(K<5L>(), K<6L>()), (K<0L>() - K<-2L>()), Y)) \
  Q(2, 0, "* 2 y", vm::expand((Y + Y))) \
  Q(1, 0, "24", vm::eval((Y * (K<-2L>() * K<-2L>())), vm::make_vector(K<-10L>(), K<6L>()))) \
  Q(0, 1, "0", vm::expand(((X * K<0L>()) * Y))) \
  Q(2, 0, "-14", vm::eval((K<-10L>() + K<-4L>()), vm::make_vector(K<9L>(), K<0L>()))) \
  Q(1, 0, "w", vm::substitute(Y, (K<0L>() + W), Y)) \
  Q(1, 0, "-1", vm::diff((((Z / K<3L>()) / (Y * K<9L>())) + ((K<-1L>() * X) - Z)), X)) \
  Q(3, 0, "+ / -1 3 * / -1 3 * y * y y", vm::integrate(vm::make_interval(Y, K<-1L>()), (((X + X) / K<2L>()) * X), X)) \
  Q(2, 0, "* / 1 27 x", vm::expand(((X / K<3L>()) / K<9L>()))) \
  Q(1, 0, "-4", vm::eval(((Z / K<-1L>()) + (X * K<-2L>())), vm::make_vector(K<7L>(), K<1L>(), K<-10L>()))) \
  Q(0, 0, "* / 1 3 / 1 + 5 x", vm::substitute(Z, K<5L>(), (((Z + K<-3L>()) / (Z + X)) / K<6L>()))) \
  Q(0, 0, "+ z + * 5 x * / -1 8 * x / 1 z", vm::expand(vm::expand((((Z + X) + (X * K<4L>())) + ((X / K<-4L>()) / (Z + Z)))))) \
  Q(4, 0, "* + 12 x + / -35 6 * / 7 12 x", vm::substitute(Z, ((X + K<-10L>()) / K<12L>()), (((K<-10L>() + K<3L>()) * (Z * K<-1L>())) * ((X + K<12L>()) + (Y - Y))))) \
  Q(1, 0, "* -3 / 1 * x x", vm::diff((K<-2L>() + (K<3L>() / X)), X)) \
  Q(2, 0, "* x x", vm::drop_dependent_terms(Y, ((X * X) / K<1L>()))) \
  Q(4, 0, "+ -6 + z * y / 1 x", vm::simplify(((Y / X) + (Z - K<6L>())))) \
  Q(1, 0, "+ z * z z", vm::integrate(vm::make_interval(K<-1L>(), Z), (Z / K<1L>()), X)) \
  Q(1, 0, "+ 9 * -3 / 1 z", vm::simplify(((K<-3L>() / Z) + K<9L>()))) \
  Q(2, 0, "+ y * -5 * y y", vm::integrate(vm::make_interval(Z, (Y + Z)), (K<1L>() - (K<5L>() * Y)), X)) \
  Q(1, 1, "* 10 * x * * y y + x * -1 y", vm::expand((((K<0L>() * K<12L>()) - (X * Y)) * ((X - Y) * (Y * K<-10L>()))))) \
  Q(1, 0, "-2", vm::eval((K<2L>() + K<-4L>()), vm::make_vector(K<1L>()))) \
  Q(1, 0, "0", vm::coefficient(X, ((K<-1L>() + Y) - (Y + K<1L>())))) \
  Q(0, 0, "+ / -1 7 + * -7 x * / 1 * + x * -1 y + x * -1 y + z + * -1 x * 9 / 1 z", vm::diff(((((K<3L>() + K<3L>()) - (Y / K<7L>())) + ((X / K<-1L>()) * (K<7L>() * Y))) + (((K<9L>() / Z) + (Z - X)) / ((Z / Z) * (X - Y)))), Y)) \
  Q(4, 0, "+ x y", vm::drop_dependent_terms(Z, ((Y + X) + K<0L>()))) \
  Q(4, 0, "+ * -1 x * 2 z", vm::simplify(((Z + Z) - (K<0L>() + X)))) \
  Q(3, 0, "+ * / -49 2 z + * / -49 4 * z z + * / 1 2 * z * y y * / 1 4 * * y y * z z", vm::integrate(vm::make_interval(K<7L>(), Y), (((Z - K<-2L>()) * (Z * X)) / K<2L>()), X)) \
  Q(2, 0, "* 5 * y * x x", vm::expand(((K<5L>() * Y) * (X * X)))) \
  Q(1, 0, "0", vm::eval(((K<1L>() + (K<12L>() * Y)) * ((X * Y) * (X + X))), vm::make_vector(K<0L>(), K<-1L>()))) \
  Q(0, 0, "+ x * -1 y", vm::substitute((K<-3L>() - Y), X, ((K<-3L>() - Y) - Y))) \
  Q(3, 0, "y", vm::expand(vm::simplify(Y))) \
  Q(1, 0, "* -4 / 1 + y + * -1 x * -7 / 1 + -1 x", vm::substitute(Z, (K<7L>() / (X - K<1L>())), (((K<0L>() + K<-4L>()) + K<0L>()) / (Y - (X + Z))))) \
  Q(1, 0, "1", vm::diff(((Z + X) + (X - X)), Z)) \
  Q(0, 0, "0", vm::coefficient(Z, (Y / K<6L>()))) \
  Q(3, 0, "0", vm::diff((((K<3L>() * K<12L>()) - (Z - K<2L>())) * ((K<0L>() * Z) + (Y / Y))), Y)) \
  Q(0, 0, "0", vm::eval(((K<3L>() / X) - (K<3L>() / X)), vm::make_vector(K<5L>(), K<-4L>(), K<3L>()))) \
  Q(2, 0, "+ -6 x", vm::substitute(Y, K<-2L>(), ((X + Y) - (K<5L>() - K<1L>())))) \
  Q(1, 0, "* / 1 24 * x + 8 * -7 x", vm::substitute(Y, (K<-3L>() - K<-1L>()), vm::simplify((((K<9L>() - K<1L>()) - (K<7L>() * X)) * ((X / K<12L>()) / K<2L>()))))) \
  Q(3, 0, "0", vm::coefficient(X, (K<-10L>() / K<-2L>()))) \
  Q(2, 0, "0", vm::diff((X + K<2L>()), Y)) \
  Q(2, 0, "* 5 / 1 + 1 x", vm::drop_dependent_terms(Y, (K<5L>() / (X + K<1L>())))) \
  Q(1, 0, "* / 1 2 * z / 1 y", vm::simplify(((K<1L>() * Z) / (Y + Y)))) \
  Q(0, 0, "+ 8 + * x x + * -6 x + * 2 y * -1 * x y", vm::integrate(vm::make_interval((X + K<-4L>()), (K<1L>() * Y)), (K<0L>() - (X - K<2L>())), Z)) \
  Q(0, 0, "+ / 6 5 + * / -1 10 x * / -1 10 y", vm::expand((((K<0L>() - K<12L>()) + (X + Y)) / K<-10L>()))) \
  Q(0, 0, "3", vm::eval((((X + X) - (X / X)) + ((X * K<1L>()) * (X * K<0L>()))), vm::make_vector(K<2L>()))) \
  Q(1, 1, "* x * y * z + -12 + x * -1 z", vm::expand(((X - (Z + K<12L>())) * ((Y * Z) * (K<1L>() * X))))) \
  Q(3, 0, "-4", vm::eval((Y + ((Z - Z) * (K<-2L>() * Y))), vm::make_vector(K<5L>(), K<-4L>(), K<1L>()))) \
  Q(1, 0, "+ / 1 4999999997 * / 1 12 * y / 1 z", vm::substitute(X, (K<1L>() * X), (((K<0L>() + K<1L>()) / (K<-3L>() + K<5000000000L>())) + ((Y * K<1L>()) / (Z * K<12L>()))))) \
  Q(3, 0, "0", vm::diff((K<0L>() + Y), Z))
#endif
#if CTM_SLICE == 8
#define CTM_CASES(Q) \
  Q(0, 0, "+ * -1 z * 6 y", vm::substitute(X, (K<0L>() - Z), ((Y + X) + (K<5L>() * Y)))) \
  Q(1, 0, "0", vm::diff(Z, Y)) \
  Q(4, 0, "+ -13 + z * 9 / 1 y", vm::drop_dependent_terms(U, (((K<9L>() / Y) - (Y / Y)) + (U - (K<12L>() - Z))))) \
  Q(3, 0, "+ -7 + z * 2 y", vm::simplify(((Y + Z) - (K<7L>() - Y)))) \
  Q(0, 0, "/ -75 8", vm::integrate(vm::make_interval(K<1L>(), K<-2L>()), ((Z - K<12L>()) / K<-4L>()), Z)) \
  Q(1, 0, "+ -2 + x * 5 y", vm::simplify(((K<5L>() * Y) + (X - K<2L>())))) \
  Q(1, 0, "* / -3 4 y", vm::integrate(vm::make_interval(K<-1L>(), K<-10L>()), (Y / K<12L>()), Z)) \
  Q(2, 0, "* / 1 4 x", vm::expand(((X / K<4L>()) - K<0L>()))) \
  Q(0, 0, "/ 41 6", vm::eval(((K<5L>() / X) + X), vm::make_vector(K<6L>()))) \
  Q(0, 1, "x", vm::expand(X)) \
  Q(0, 0, "1", vm::eval(X, vm::make_vector(K<1L>()))) \
  Q(0, 0, "+ y * -1 z", vm::substitute((Z / Y), (Y - Z), (Z / Y))) \
  Q(0, 0, "0", vm::diff(Y, X)) \
  Q(1, 0, "/ 1 y", vm::drop_dependent_terms(Z, (K<1L>() / Y))) \
  Q(0, 0, "+ -2 * -1 y", vm::simplify(((X - K<2L>()) - (Y + X)))) \
  Q(1, 0, "+ * 9 x * 9 y", vm::integrate(vm::make_interval((X - K<9L>()), X), (Y + X), Z)) \
  Q(2, 0, "* / 1 7 * z / 1 x", vm::simplify((Z / (X * K<7L>())))) \
  Q(1, 0, "+ 1 + z + * -1 * y y * y z", vm::integrate(vm::make_interval(Y, K<-1L>()), ((Y - Z) - K<1L>()), X)) \
  Q(2, 1, "+ -6 x", vm::expand((X - (K<6L>() - (X - X))))) \
  Q(0, 0, "* -2 x", vm::expand(vm::expand((X - (X * K<3L>()))))) \
  Q(4, 0, "* y / 1 + 6 * -4 y", vm::substitute(X, Y, ((X / (X / Y)) / ((X + K<6L>()) - (Y * K<5L>()))))) \
  Q(0, 0, "+ * / -3 7 * z * / 1 + 1 z * / 1 + y * 2 x + 9 x + * / 3 7 * z * / 1 + 1 z * / 1 + y * 2 x + 5 * -1 x * / -6 7 * z * / 1 + 1 z * / 1 * + y * 2 x + y * 2 x * + 5 * -1 x + 9 x", vm::diff((((K<3L>() / (K<7L>() / Z)) * ((K<1L>() + K<4L>()) - X)) / (((Z - K<-1L>()) / (X + K<9L>())) * ((K<2L>() * X) + Y))), X)) \
  Q(1, 0, "0", vm::coefficient(Z, K<2L>())) \
  Q(4, 0, "* / 1 7 * y y", vm::diff(((X / K<7L>()) * (Y * Y)), X)) \
  Q(4, 0, "0", vm::drop_dependent_terms(Y, (Y / (X - K<2L>())))) \
  Q(2, 0, "0", vm::simplify((((K<7L>() - K<-1L>()) * (Y - Y)) * ((Y * X) + (K<7L>() - Y))))) \
  Q(3, 0, "+ / -7 2 + * / 1 2 * y y * -3 y", vm::integrate(vm::make_interval(Y, K<-1L>()), (K<1L>() - (X - K<2L>())), X)) \
  Q(2, 0, "* * y y / 1 z", vm::simplify(((Y / K<1L>()) * (Y / Z)))) \
  Q(0, 0, "* 3 x", vm::integrate(vm::make_interval(K<-2L>(), K<1L>()), X, Z)) \
  Q(1, 0, "* 2 y", vm::expand(((Y * K<1L>()) + Y))) \
  Q(0, 0, "420000", vm::eval((K<12L>() * ((Y * X) / K<-2L>())), vm::make_vector(K<1L>(), K<-70000L>()))) \
  Q(0, 1, "+ -9 * -10 z", vm::expand(((K<-10L>() * Z) - K<9L>()))) \
  Q(0, 0, "0", vm::eval(((X * X) * (K<-10L>() - X)), vm::make_vector(K<0L>()))) \
  Q(0, 0, "+ -3 + * -2 y * / 4 9 x", vm::substitute(Z, (Z * K<2L>()), (((X + X) / (K<9L>() / K<2L>())) - ((Y + K<-3L>()) + (K<6L>() + Y))))) \
  Q(1, 0, "0", vm::diff(vm::expand(K<0L>()), Y)) \
  Q(0, 0, "/ -1 2", vm::substitute(Z, K<0L>(), ((K<-10L>() / K<-2L>()) / K<-10L>()))) \
  Q(0, 0, "x", vm::diff(((K<1L>() + X) + (X * Z)), Z)) \
  Q(1, 0, "-1", vm::coefficient(Y, ((X - Y) - (Z - X)))) \
  Q(2, 0, "-1", vm::diff((K<1L>() - Y), Y)) \
  Q(1, 0, "0", vm::drop_dependent_terms(Y, K<0L>())) \
  Q(1, 0, "+ 2 + * x x * -1 x", vm::simplify(((X * X) - (X - K<2L>())))) \
  Q(0, 0, "12", vm::integrate(vm::make_interval(K<-1L>(), (Y - Y)), K<12L>(), X)) \
  Q(1, 0, "+ x + y * -3 / 1 x", vm::expand(((Y + X) - (K<3L>() / X)))) \
  Q(0, 0, "1080", vm::eval((((K<0L>() + K<5L>()) + (Y * Y)) * ((K<-3L>() + X) + (Y + Y))), vm::make_vector(K<9L>(), K<7L>()))) \
  Q(2, 1, "* y + * x z * -1 * y z", vm::expand(((Y * K<1L>()) * ((Z * X) - (Z * Y))))) \
  Q(3, 0, "1", vm::eval(((X * X) + (K<0L>() / K<-4L>())), vm::make_vector(K<1L>()))) \
  Q(3, 0, "/ -5 4", vm::substitute(Y, (Z - (X - Z)), ((X / X) / (K<-4L>() / K<5L>())))) \
  Q(3, 0, "/ -5 3", vm::substitute(Z, (K<1L>() / K<-4L>()), vm::substitute(Z, Y, (K<5L>() / K<-3L>())))) \
  Q(1, 0, "0", vm::coefficient(Z, ((X - K<2L>()) / (X * X)))) \
  Q(1, 0, "+ * / -2 3 * w + -1 + w * x / 1 w * / -1 3 * * w w + 1 * -1 * x / 1 * w w", vm::diff(((((Y * K<12L>()) * (Y - X)) - (K<6L>() * (X - K<6L>()))) - (((X / W) + (W + K<-1L>())) * (W * (W / K<3L>())))), W)) \
  Q(1, 0, "+ 48 * -4 y", vm::integrate(vm::make_interval(K<5L>(), K<9L>()), (K<12L>() - Y), Z)) \
  Q(4, 0, "z", vm::expand((Z / K<1L>()))) \
  Q(4, 0, "-2", vm::eval((K<-2L>() - (X / K<4L>())), vm::make_vector(K<0L>(), K<3L>()))) \
  Q(3, 0, "0", vm::substitute(Z, X, (K<0L>() - K<0L>()))) \
  Q(0, 0, "0", vm::diff((K<-2L>() + K<0L>()), X)) \
  Q(0, 0, "0", vm::drop_dependent_terms(Y, (((Y + X) - (K<2L>() + X)) * ((K<0L>() / X) / (Z * K<4L>()))))) \
  Q(1, 0, "* 7 x", vm::simplify(((K<12L>() - K<5L>()) * (X + K<0L>())))) \
  Q(4, 0, "* -1 x", vm::integrate(vm::make_interval(X, K<0L>()), (K<1L>() / K<1L>()), Z)) \
  Q(0, 0, "+ * -1 y * 3 / 1 x", vm::simplify(((K<3L>() / X) - Y))) \
  Q(0, 0, "+ * y y + * -1 * x x + * -2 x * 2 y", vm::integrate(vm::make_interval(Y, X), (K<-2L>() - (Y + X)), Z)) \
  Q(2, 0, "+ * -1 x + * -1 y + * / -1 3 z * x y", vm::expand((((X * Y) - (Z / K<3L>())) - (X + Y)))) \
  Q(0, 0, "-12", vm::eval((((K<-10L>() + K<-4L>()) + (Y + K<2L>())) - Y), vm::make_vector(K<3L>(), K<-3L>()))) \
  Q(3, 1, "* 3 * + 2 z + 6 y", vm::expand((((Z + K<2L>()) * (K<6L>() + Y)) * K<3L>()))) \
  Q(1, 0, "49", vm::eval((X * X), vm::make_vector(K<7L>()))) \
  Q(0, 0, "* 14 / 1 + -1 y", vm::substitute(Y, Y, (K<14L>() / (Y + K<-1L>())))) \
  Q(3, 0, "0", vm::diff(((K<0L>() * Z) + (Y + X)), Z)) \
  Q(3, 0, "0", vm::coefficient(Z, (K<-2L>() * Y))) \
  Q(0, 0, "0", vm::diff((K<2L>() / K<9L>()), X)) \
  Q(1, 0, "* y * x x", vm::drop_dependent_terms(W, (Y * (X * X)))) \
  Q(3, 0, "+ -2 * -1 z", vm::simplify((K<-2L>() - Z))) \
  Q(1, 0, "+ * / 1 2 * y y + * / 1 2 * z z * -1 * y z", vm::integrate(vm::make_interval(Z, Y), (Y - X), X)) \
  Q(1, 0, "+ 1 * / -4 5 y", vm::simplify(((K<1L>() - Y) + (Y / K<5L>())))) \
  Q(3, 0, "+ / 9 4 + * / -5 24 * y * y y + * / 1 12 * z * z z + * / 3 4 * z z + * / 9 4 z + * / 9 8 y + * / 1 8 * y * z z * / 3 4 * y z", vm::integrate(vm::make_interval(Y, (Z + K<3L>())), ((Y + X) * (X / K<4L>())), X)) \
  Q(3, 0, "* / 1 + * -1 * y y * 6 y + z * -1 y", vm::expand((((Z - Z) + (Z - Y)) / ((K<6L>() * Y) - (Y * Y))))) \
  Q(0, 0, "1", vm::eval(X, vm::make_vector(K<1L>(), K<-3L>()))) \
  Q(0, 1, "+ 2 * -6 x", vm::expand((K<2L>() + ((Y * K<0L>()) - (K<6L>() * X))))) \
  Q(0, 0, "-3", vm::eval(K<-3L>(), vm::make_vector(K<0L>()))) \
  Q(0, 0, "+ 2 * -1 y", vm::substitute(X, K<3L>(), ((X + X) + (K<-4L>() - Y)))) \
  Q(0, 0, "0", vm::substitute(Z, K<3L>(), vm::expand((X * (X - X))))) \
  Q(1, 0, "+ 18 * 2 y", vm::substitute(X, (Y + K<1L>()), (((K<-1L>() * Y) + (K<3L>() + K<3L>())) - ((K<-4L>() - Y) * K<3L>())))) \
  Q(1, 0, "0", vm::diff((K<1L>() / (X / K<4L>())), Y)) \
  Q(4, 0, "+ 1 * -1 z", vm::coefficient(U, (((X * K<-3L>()) - (X + K<-10L>())) - ((U * K<1L>()) * (K<-1L>() + Z))))) \
  Q(1, 0, "/ -1 2", vm::simplify((K<1L>() / K<-2L>()))) \
  Q(2, 0, "+ * 5 w * / -3 2 * w w", vm::integrate(vm::make_interval((W + W), W), ((X - K<2L>()) - K<3L>()), X)) \
  Q(0, 0, "+ y + * -1 x * -1 z", vm::simplify((((K<5L>() + Y) - (Z + K<5L>())) - X))) \
  Q(2, 0, "/ -9 2", vm::eval(((K<3L>() / X) - K<3L>()), vm::make_vector(K<-2L>(), K<12L>()))) \
  Q(1, 1, "+ * -1 y + * 8 x * -3 * z + y * -1 x", vm::expand((((Z * K<-3L>()) * (Y - X)) + ((X * K<7L>()) - (Y - X))))) \
  Q(1, 0, "-6", vm::eval(((K<-1L>() * (Z - K<2L>())) - X), vm::make_vector(K<-4L>(), K<-1L>(), K<12L>()))) \
  Q(1, 0, "0", vm::substitute(K<-5L>(), ((X / Y) * (K<0L>() / K<-3L>())), K<-5L>())) \
  Q(2, 0, "+ -6 * / -1 84 x", vm::expand(vm::substitute(X, (X / K<12L>()), ((K<-4L>() + K<-2L>()) - (X / K<7L>()))))) \
  Q(1, 0, "0", vm::coefficient(Y, (K<12L>() + ((K<1L>() * K<0L>()) / K<3L>())))) \
  Q(0, 0, "+ x + * -1 * x x * -2 / 1 y", vm::simplify((X - ((X * X) - (K<-2L>() / Y))))) \
  Q(0, 0, "+ * / -17 2 * y y + * / -3 2 * x x + * / -3 14 * x * x x + * 10 * x y + * / -17 14 * x * y y * / 10 7 * y * x x", vm::integrate(vm::make_interval(X, Y), (((K<3L>() * Z) + (K<-10L>() * Y)) * ((K<6L>() / K<6L>()) + (X / K<7L>()))), Z)) \
  Q(3, 0, "4", vm::simplify(K<4L>())) \
  Q(2, 0, "+ * -5 * * y y / 1 + x y * 5 * x * y / 1 + x y", vm::integrate(vm::make_interval(Y, X), ((K<5L>() * Y) / (Y + X)), Z)) \
  Q(1, 0, "* / 1 2 * + -2 x + y * -1 x", vm::expand((((Y - X) * (X - K<2L>())) / K<2L>()))) \
  Q(1, 0, "-2", vm::eval(((Y + X) + K<3L>()), vm::make_vector(K<-1L>(), K<-4L>()))) \
  Q(0, 0, "z", vm::substitute((X - K<-4L>()), Z, (X - K<-4L>()))) \
  Q(2, 0, "0", vm::diff(vm::diff(((K<0L>() / Z) - Y), Y), Z)) \
  Q(1, 0, "-1", vm::coefficient(X, (K<3L>() - (Y + X)))) \
  Q(1, 0, "0", vm::diff((K<4L>() * (K<1L>() - K<-4L>())), X)) \
  Q(2, 0, "+ 2 * -1 x", vm::drop_dependent_terms(Z, (K<0L>() - (X - K<2L>())))) \
  Q(0, 0, "+ 1 * x x", vm::simplify((K<1L>() + (X * X)))) \
  Q(1, 0, "+ / -343 3 * / 1 3 * x * x x", vm::integrate(vm::make_interval(K<7L>(), X), (Z * Z), Z)) \
  Q(3, 0, "-18", vm::expand(((K<-3L>() * K<6L>()) / (X / X)))) \
  Q(4, 0, "-4", vm::eval((Z + Z), vm::make_vector(K<-2L>(), K<7L>(), K<-2L>()))) \
  Q(1, 0, "* / -1 3 x", vm::substitute(Z, X, (K<-1L>() * (X / K<3L>())))) \
  Q(0, 0, "0", vm::expand(vm::diff((X * K<7L>()), Y))) \
  Q(0, 0, "* / -2 3 x", vm::substitute(Z, X, (K<-2L>() / (K<3L>() / X)))) \
  Q(1, 0, "+ * 3 / 1 x * -3 * / 1 * x x + x y", vm::diff(((Y + X) * (K<3L>() / X)), X)) \
  Q(4, 0, "* / 1 16 * x x", vm::drop_dependent_terms(Z, ((X / K<4L>()) * (X / K<4L>())))) \
  Q(0, 0, "+ * -50 x * 2 * x + 5 y", vm::expand((((X * K<-10L>()) * (K<1L>() - K<-4L>())) + ((Y + K<5L>()) * (X + X))))) \
  Q(4, 0, "/ 7 3", vm::eval((X - ((K<2L>() / K<4L>()) / (X / Y))), vm::make_vector(K<3L>(), K<4L>()))) \
  Q(0, 1, "* 7 * x x", vm::expand(((X * X) * (K<6L>() + K<1L>())))) \
  Q(3, 0, "/ -1400 153", vm::eval((((K<1L>() - Z) * (Y * K<5L>())) / ((Y + K<9L>()) + (Y / X))), vm::make_vector(K<-10L>(), K<7L>(), K<5L>()))) \
  Q(4, 0, "x", vm::substitute(K<-6L>(), X, K<-6L>())) \
  Q(3, 0, "+ y * -1 z", vm::substitute(X, Z, vm::substitute(X, Y, (X - Z)))) \
  Q(0, 0, "* -1 y", vm::substitute(W, X, (K<-1L>() * Y))) \
  Q(3, 0, "0", vm::diff(((K<0L>() * K<9L>()) / (K<3L>() * K<9L>())), Z)) \
  Q(4, 0, "* -10 y", vm::drop_dependent_terms(X, (K<-2L>() * (K<5L>() * Y)))) \
  Q(1, 0, "+ 6 x", vm::simplify((X + K<6L>()))) \
  Q(4, 0, "+ * -1 * x * x x * 8 * x x", vm::integrate(vm::make_interval((K<1L>() + X), K<9L>()), ((X / K<6L>()) * (X * K<6L>())), Z)) \
  Q(0, 0, "* 4 * / 1 x + -2 x", vm::simplify(((X - K<2L>()) / (X / K<4L>())))) \
  Q(2, 0, "+ 48 * 2 y", vm::integrate(vm::make_interval(K<7L>(), K<5L>()), (((X * K<-4L>()) - (K<-3L>() + K<0L>())) - ((Y - X) - (K<-3L>() - X))), X)) \
  Q(0, 1, "* -6 * y * y y", vm::expand((Y * ((Y * Y) * (K<-2L>() + K<-4L>()))))) \
  Q(1, 0, "-6", vm::eval(((Y + X) + X), vm::make_vector(K<-4L>(), K<2L>(), K<-3L>()))) \
  Q(3, 0, "* 3 x", vm::substitute(Z, K<-4L>(), (K<3L>() * X))) \
  Q(0, 0, "0", vm::diff((K<12L>() * K<-4L>()), Y)) \
  Q(2, 0, "0", vm::coefficient(X, (K<1L>() + Y))) \
  Q(1, 0, "0", vm::diff(((K<1L>() + Z) - (Z - K<-1L>())), Y)) \
  Q(0, 0, "+ * -59 y * 59 x", vm::integrate(vm::make_interval(X, Y), (K<1L>() + ((K<3L>() * K<-2L>()) * (K<12L>() - K<2L>()))), Z)) \
  Q(2, 0, "* -2 y", vm::simplify((Y * K<-2L>()))) \
  Q(2, 0, "+ / 1 2 + * -2 x + * / -1 2 * y y * 2 * x y", vm::integrate(vm::make_interval(Y, K<1L>()), ((Z - X) - X), Z)) \
  Q(1, 0, "+ x * 6 y", vm::expand(((Y + X) + (K<5L>() * Y)))) \
  Q(0, 0, "0", vm::eval(((X - X) / (X / Z)), vm::make_vector(K<-3L>(), K<-4L>(), K<7L>()))) \
  Q(1, 1, "+ * 2 y * 12 z", vm::expand(((K<12L>() * Z) - (Y * K<-2L>())))) \
  Q(3, 0, "0", vm::eval((K<0L>() * Y), vm::make_vector(K<9L>(), K<4L>()))) \
  Q(1, 0, "5", vm::substitute(Y, X, ((K<5L>() * Y) / Y))) \
  Q(1, 0, "y", vm::simplify(vm::simplify(Y))) \
  Q(0, 0, "0", vm::coefficient(Z, (K<0L>() / (X / K<4L>())))) \
  Q(1, 0, "-3", vm::diff((((K<-3L>() * Y) - (K<0L>() * Z)) - ((K<2L>() - X) * (K<0L>() / Y))), Y)) \
  Q(4, 0, "+ 1 + x + z * 2 / 1 z", vm::drop_dependent_terms(Y, ((K<1L>() + (Y * Y)) - ((K<-2L>() / Z) - (X + Z))))) \
  Q(3, 0, "* 2 y", vm::simplify(((Y + Y) - (X - X)))) \
  Q(1, 0, "+ * -7 * x x * 7 * x y", vm::integrate(vm::make_interval(X, Y), (X * K<7L>()), Z)) \
  Q(4, 1, "* 20 z", vm::expand(((K<-2L>() + K<6L>()) * (K<5L>() * Z)))) \
  Q(0, 0, "1", vm::eval((((Y / Y) / K<1L>()) * ((Y + K<-1L>()) / (Y + X))), vm::make_vector(K<-1L>(), K<6L>()))) \
  Q(0, 0, "+ 2 * -1 * * w w + 3 * -1 x", vm::substitute(Y, W, (K<2L>() - ((K<3L>() - X) * (W * Y))))) \
  Q(4, 0, "0", vm::diff((X + Z), Y)) \
  Q(0, 0, "* -1 * y / 1 x", vm::drop_dependent_terms(U, (U - (Y / X)))) \
  Q(1, 0, "* / 2 3 z", vm::simplify((((K<-2L>() + K<2L>()) * K<1L>()) + ((Z * K<1L>()) + (Z / K<-3L>()))))) \
  Q(3, 0, "0", vm::integrate(vm::make_interval(Y, Y), (K<-2L>() / (K<5L>() * Y)), Z)) \
  Q(3, 0, "* 7 * / 1 x + y z", vm::simplify((((K<7L>() / X) * (Y + Z)) / K<1L>()))) \
  Q(1, 0, "+ / 46 21 + * -6 * x x * / 80 21 x", vm::integrate(vm::make_interval(K<1L>(), X), (((K<1L>() / K<7L>()) - (X * K<6L>())) + (K<7L>() / K<-3L>())), Z)) \
  Q(1, 1, "0", vm::expand((Z * ((Y + X) * K<0L>())))) \
  Q(1, 0, "0", vm::diff(vm::simplify(K<12L>()), X)) \
  Q(0, 0, "* 3 x", vm::substitute(Y, ((X * K<0L>()) * (Z / K<-3L>())), ((K<3L>() / X) * (X * X)))) \
  Q(1, 0, "3", vm::diff((Y * K<3L>()), Y)) \
  Q(1, 0, "0", vm::coefficient(Z, ((K<0L>() + X) + (K<1L>() / K<-3L>())))) \
  Q(4, 0, "0", vm::diff((K<0L>() + K<0L>()), Y)) \
  Q(1, 0, "+ * -6 * z * z z + * -3 z + * 9 * z z + * x * z z * -1 * x z", vm::integrate(vm::make_interval((Z * Z), Z), ((K<6L>() * Z) - (X + K<3L>())), Y)) \
  Q(0, 0, "+ -3 x", vm::simplify((X - K<3L>()))) \
  Q(2, 0, "+ -120 + * -12 y + * 10 x * x y", vm::integrate(vm::make_interval(X, K<12L>()), (K<-10L>() - Y), Z)) \
  Q(3, 0, "* y / 1 + y * -1 z", vm::expand((Y / (Y - Z)))) \
  Q(0, 0, "/ 4 3", vm::eval((((X - X) / (K<1L>() / X)) + ((K<4L>() - K<-4L>()) * (X / K<6L>()))), vm::make_vector(K<1L>()))) \
  Q(0, 0, "+ / 21 2 * -1 z", vm::substitute(X, ((Z + K<1L>()) - (K<-1L>() / K<2L>())), (K<12L>() - X))) \
  Q(4, 0, "0", vm::simplify(vm::diff(((K<-4L>() - X) + X), Z))) \
  Q(1, 0, "* -6 / 1 x", vm::substitute(Z, K<9L>(), ((K<3L>() / X) * K<-2L>()))) \
  Q(0, 0, "1", vm::diff((Y / (Z / Z)), Y)) \
  Q(1, 0, "+ * -1 x * -1 * x * x x", vm::integrate(vm::make_interval((X - K<0L>()), (K<5L>() - K<5L>())), (K<1L>() + (X * X)), Z)) \
  Q(2, 0, "+ 9 + * -1 w * 3 y", vm::simplify((((X + K<9L>()) + (Y - W)) + (Y + (Y - X))))) \
  Q(3, 0, "+ 1 x", vm::integrate(vm::make_interval((X - K<1L>()), X), (X + K<1L>()), Y)) \
  Q(0, 1, "+ z + * 4 x * x * y y", vm::expand((((X * K<3L>()) + (X + Z)) + ((X * Y) * Y)))) \
  Q(3, 0, "9", vm::eval((K<-1L>() - Y), vm::make_vector(K<-2L>(), K<-10L>(), K<-3L>()))) \
  Q(1, 0, "* / 1 4 * y z", vm::substitute(X, (X + K<12L>()), ((Y * Z) / K<4L>()))) \
  Q(4, 0, "+ 1 + * -1 y * x z", vm::expand(vm::expand(((Z * X) - (Y - K<1L>()))))) \
  Q(1, 0, "/ 2 21", vm::substitute(X, (K<7L>() / K<-1L>()), ((K<6L>() / K<9L>()) / K<7L>()))) \
  Q(0, 0, "1", vm::diff(W, W)) \
  Q(4, 0, "0", vm::coefficient(Z, (((K<5L>() + K<-3L>()) * (Y / K<4L>())) - ((K<9L>() / X) * (Y / K<6L>()))))) \
  Q(1, 0, "+ -120 + * -10 x + * 10 y + * 10 w + * + -1 x + 40 + * -10 x + * -10 w * 10 y * -10 * x w", vm::diff(((((W * X) + (K<0L>() - Y)) + ((X + K<12L>()) - (W / K<1L>()))) * (((W + K<0L>()) - (K<-10L>() + W)) * ((Y + K<4L>()) - (W + X)))), W)) \
  Q(4, 0, "-3", vm::drop_dependent_terms(X, ((X * X) - K<3L>()))) \
  Q(0, 0, "+ 1 * 3 / 1 x", vm::simplify(((K<3L>() / X) + K<1L>()))) \
  Q(0, 0, "* -8 y", vm::integrate(vm::make_interval(K<5L>(), K<-3L>()), (Y / K<1L>()), Z)) \
  Q(2, 0, "* z + x z", vm::simplify(((X + Z) * Z))) \
  Q(0, 0, "/ 9 4", vm::eval(((X / K<4L>()) - K<-2L>()), vm::make_vector(K<1L>(), K<7L>()))) \
  Q(4, 1, "+ y * -1 z", vm::expand(((Z - Y) * (K<0L>() - K<1L>())))) \
  Q(2, 0, "* / 1 3 * y y", vm::substitute(Z, Y, vm::substitute(Y, Y, (Z * ((Y + Z) / K<6L>()))))) \
  Q(1, 0, "* y + -2 x", vm::substitute(W, (K<7L>() / K<9L>()), (Y * (X - K<2L>())))) \
  Q(0, 0, "0", vm::diff(((K<12L>() + K<9L>()) / K<5L>()), Y)) \
  Q(0, 0, "y", vm::coefficient(U, ((Y * U) + (Y / X)))) \
  Q(3, 0, "* -24 / 1 * x * x x", vm::diff((((Y * K<12L>()) - (Z - Z)) / ((X * Y) * (K<0L>() + X))), X)) \
  Q(4, 0, "/ 12 7", vm::drop_dependent_terms(Z, ((Y / K<7L>()) * (K<12L>() / Y)))) \
  Q(4, 0, "* 2 * x z", vm::simplify(((Z + Z) * (K<0L>() + X)))) \
  Q(0, 0, "+ * w * x x * 3 * w / 1 x", vm::integrate(vm::make_interval((X - X), W), ((K<3L>() / X) + (X * X)), Y)) \
  Q(0, 1, "* -12 * x * z + 72 * -24 z", vm::expand((((X * K<-4L>()) * (Z * K<3L>())) * ((K<-2L>() * K<12L>()) * (K<-3L>() + Z))))) \
  Q(3, 0, "0", vm::eval(((X - Y) / (Y / K<-3L>())), vm::make_vector(K<-2L>(), K<-2L>()))) \
  Q(0, 0, "* y * / 1 z + 3 * -1 y", vm::substitute(X, (Y / X), (((K<-4L>() * K<-2L>()) - (K<5L>() + Y)) / ((Z / Y) - (K<0L>() * K<-4L>()))))) \
  Q(4, 0, "0", vm::diff(vm::substitute(U, K<1L>(), ((U * U) / K<-3L>())), Z)) \
  Q(1, 0, "0", vm::coefficient(Z, (X - ((K<-10L>() - X) - K<2L>())))) \
  Q(0, 0, "0", vm::diff((K<3L>() - X), Z)) \
  Q(0, 0, "-24", vm::integrate(vm::make_interval(K<9L>(), (K<7L>() * K<3L>())), K<-2L>(), X)) \
  Q(1, 1, "+ 12 y", vm::expand(((K<12L>() + Y) - (Z - Z)))) \
  Q(1, 0, "+ 2 + y * -2 x", vm::substitute(Z, X, vm::simplify(((Y + K<2L>()) + (K<-2L>() * Z))))) \
  Q(1, 0, "0", vm::substitute(Y, ((W / K<3L>()) + (X / K<-2L>())), (Y * K<0L>()))) \
  Q(0, 0, "0", vm::diff((((K<9L>() + X) * (X * K<6L>())) - ((K<-10L>() / K<7L>()) / K<1L>())), Y)) \
  Q(0, 0, "0", vm::coefficient(Y, (K<-1L>() * K<1L>()))) \
  Q(4, 0, "0", vm::diff(((Y * Z) * (Z * Z)), X)) \
  Q(2, 0, "* / 4 9 z", vm::integrate(vm::make_interval((Z - Z), K<2L>()), (((Z * Y) + Z) / K<9L>()), Y)) \
  Q(2, 0, "+ 2 x", vm::simplify(((X + K<12L>()) + K<-10L>()))) \
  Q(0, 0, "0", vm::integrate(vm::make_interval(K<1L>(), (K<2L>() * Y)), K<0L>(), X)) \
  Q(0, 0, "x", vm::expand((X - K<0L>()))) \
  Q(3, 0, "/ 9 5", vm::eval((K<3L>() * (K<3L>() / X)), vm::make_vector(K<5L>(), K<0L>(), K<-3L>()))) \
  Q(0, 0, "+ * -1 * x x + * 2 z * 2 * z + -1 x", vm::substitute(Y, ((X - Y) - (K<0L>() * K<1L>())), (((X - K<1L>()) * (K<2L>() * Z)) + ((Z + Z) - (X * X))))) \
  Q(1, 0, "0", vm::diff(vm::diff(K<12L>(), Y), Z)) \
  Q(0, 0, "+ 11 y", vm::drop_dependent_terms(U, (((K<12L>() + Y) - (K<6L>() / K<6L>())) + (U * (X - Y))))) \
  Q(0, 0, "+ -3 * x x", vm::simplify(((X * X) - K<3L>()))) \
  Q(0, 0, "+ * / 1 2 * x x + * x y + * -1 * x * y y * / -1 2 * * x x * y y", vm::integrate(vm::make_interval((Y * X), X), (Y + Z), Z)) \
  Q(1, 0, "+ w + * -1 y * y / 1 w", vm::expand(((Y / W) - (Y - W)))) \
  Q(0, 0, "-28", vm::eval((Y + ((Y - K<12L>()) / (K<3L>() / K<5L>()))), vm::make_vector(K<0L>(), K<-3L>(), K<7L>()))) \
  Q(0, 1, "+ 9 + * -1 * x z * 9 * y * x x", vm::expand(((K<9L>() - (X * Z)) + ((Y * X) * (K<9L>() * X))))) \
  Q(1, 0, "/ 7 4", vm::eval(((K<3L>() / X) + K<1L>()), vm::make_vector(K<4L>(), K<-4L>()))) \
  Q(0, 0, "+ -4 * 2 * z z", vm::substitute(X, (Z * Z), ((X + K<-4L>()) + X))) \
  Q(2, 0, "0", vm::diff((((K<4L>() + K<-10L>()) - (K<5L>() + K<9L>())) + W), Y)) \
  Q(4, 0, "1", vm::coefficient(Y, (K<7L>() + Y))) \
  Q(0, 0, "0", vm::diff((Y - Y), Y)) \
  Q(1, 0, "0", vm::drop_dependent_terms(X, (Y * ((K<0L>() / K<4L>()) + (K<9L>() * X))))) \
  Q(4, 0, "+ / 55 7 + * / 2 35 y * / 4 7 z", vm::simplify(((((K<4L>() / K<7L>()) * (K<-2L>() - K<-1L>())) * ((Y / K<-10L>()) - (K<-2L>() + Z))) + K<9L>()))) \
  Q(2, 0, "-80", vm::eval(((X * X) * (K<5L>() * Y)), vm::make_vector(K<4L>(), K<-1L>(), K<2L>()))) \
  Q(0, 0, "+ 12 * -1 x", vm::substitute(Y, K<12L>(), (Y - X))) \
  Q(4, 0, "1", vm::diff(X, X)) \
  Q(1, 0, "+ * / 1 8 z * 4 * x z", vm::drop_dependent_terms(U, (((Z / K<-2L>()) / (K<6L>() + K<-10L>())) - ((U - Z) * (K<4L>() * X))))) \
  Q(1, 0, "-4", vm::simplify((K<4L>() * K<-1L>()))) \
  Q(0, 0, "+ -24 * 3 y", vm::integrate(vm::make_interval((K<-10L>() + Y), (K<-2L>() * K<1L>())), (K<-2L>() - K<1L>()), X)) \
  Q(1, 0, "* 2 * * y y / 1 + 3 * -1 x", vm::simplify((((Y * Y) / (K<3L>() - X)) * ((K<4L>() * K<1L>()) / K<2L>())))) \
  Q(1, 0, "-70", vm::eval((K<-10L>() * X), vm::make_vector(K<7L>(), K<-4L>(), K<-10L>()))) \
  Q(0, 1, "0", vm::expand(((X - X) * (Y - Z)))) \
  Q(0, 0, "/ 51 2", vm::eval(((K<6L>() / (X - Y)) - ((K<-3L>() * K<9L>()) + Y)), vm::make_vector(K<7L>(), K<3L>()))) \
  Q(4, 0, "* * x x / 1 y", vm::substitute((K<7L>() + X), Y, ((X * X) / (K<7L>() + X)))) \
  Q(4, 0, "+ / 1 14 * z * x x", vm::expand(vm::simplify((((X + K<0L>()) * (Z * X)) + ((K<1L>() / K<7L>()) / K<2L>()))))) \
  Q(0, 0, "x", vm::substitute(Z, Y, (K<1L>() * X))) \
  Q(2, 0, "0", vm::diff(K<-4L>(), X))
#endif
