// generated by tools/gen_shapes.py
#define N_SHAPES 113
SHAPE(0, a)
SHAPE(1, a*b)
SHAPE(2, a+b)
SHAPE(3, a-b)
SHAPE(4, -a)
SHAPE(5, a*a)
SHAPE(6, a*b+c)
SHAPE(7, (a+b)*(b-c))
SHAPE(8, k*a)
SHAPE(9, a/(K(2)+b*b))
SHAPE(10, a*b*c)
SHAPE(11, a+b+c)
SHAPE(12, a-b-c)
SHAPE(13, a*k+b)
SHAPE(14, sin(a)*cos(b))
SHAPE(15, exp(K(0.3)*sin(a))+b)
SHAPE(16, sqrt(a*a+b*b+K(0.5)))
SHAPE(17, a*a*a)
SHAPE(18, (a+a)*(a-b))
SHAPE(19, max(a,b))
SHAPE(20, min(a,b)*c)
SHAPE(21, pow(a*a+K(0.5), K(1.3)))
SHAPE(22, (a*b+c)/(K(1.5)+sin(a)*sin(b)))
SHAPE(23, ((a+b)*(a-b)+c*c)/(a*a+b*b+c*c+1))
SHAPE(24, sin((a-K(0.25)*c))-a)
SHAPE(25, cos(a)+b)
SHAPE(26, tanh(a)+b)
SHAPE(27, atan((a-K(0.25)*c))-a)
SHAPE(28, exp(K(0.3)*sin(b)))
SHAPE(29, sqrt(a*a+K(0.5))+b)
SHAPE(30, log(a*a+K(1.5)))
SHAPE(31, erf(sin(a+b))+b)
SHAPE(32, erfc(a)*c)
SHAPE(33, cbrt(b*b+1)*c)
SHAPE(34, expm1(sin((a-K(0.25)*c)))+b)
SHAPE(35, log1p(a*a)-a)
SHAPE(36, log2(a*a+2))
SHAPE(37, log10(b*b+3)-a)
SHAPE(38, asinh((a-K(0.25)*c))*c)
SHAPE(39, acosh(b*b+K(1.5))-a)
SHAPE(40, atanh(K(0.5)*sin(a))+b)
SHAPE(41, asin(K(0.6)*sin(b))+b)
SHAPE(42, acos(K(0.6)*cos(a))-a)
SHAPE(43, tan(K(0.5)*sin(sin(a+b))))
SHAPE(44, sinh(sin((a*b)))-a)
SHAPE(45, cosh(sin(a)))
SHAPE(46, exp2(cos((a*b)))-a)
SHAPE(47, fabs(a)+b)
SHAPE(48, abs(b)*c)
SHAPE(49, smooth_abs((a-K(0.25)*c), K(0.5))+b)
SHAPE(50, radians(a)+b)
SHAPE(51, (-sin(a+b))-a)
SHAPE(52, (+(a-K(0.25)*c))*c)
SHAPE(53, pow((a*b), 2)+b)
SHAPE(54, pow((a-K(0.25)*c)*K(0.5), 3))
SHAPE(55, pow(a*a+K(0.5), K(1.3))-a)
SHAPE(56, pow(a*a+K(0.5), -1)-a)
SHAPE(57, (sin(a+b)*k)*c)
SHAPE(58, (k*(a*b))*c)
SHAPE(59, (sin(a+b)+k))
SHAPE(60, (k+sin(a+b))+b)
SHAPE(61, (b-k)-a)
SHAPE(62, (k-b)-a)
SHAPE(63, ((a-K(0.25)*c)/K(1.7)))
SHAPE(64, ((a*b)/3)*c)
SHAPE(65, (2*a)+b)
SHAPE(66, (1-sin(a+b))+b)
SHAPE(67, (k/(b*b+K(1.5)))+b)
SHAPE(68, (1/(a*a+K(1.5)))*c)
SHAPE(69, max((a-K(0.25)*c), k)*c)
SHAPE(70, min(k, sin(a+b)))
SHAPE(71, fmax((a*b), k)-a)
SHAPE(72, fmin(a, k)*c)
SHAPE(73, pow(K(1.4), sin((a-K(0.25)*c))))
SHAPE(74, hypot(a, K(1.1))*c)
SHAPE(75, atan2((a*b), K(1.3))*c)
SHAPE(76, degrees(K(0.02)*sin(a))-a)
SHAPE(77, ((a*c)+a))
SHAPE(78, ((a*c)-sin(b)))
SHAPE(79, (a*a))
SHAPE(80, ((a*c)/(2+cos(sin(b)))))
SHAPE(81, max(a,a))
SHAPE(82, min((a*c),sin(b)))
SHAPE(83, fmax((a*c),b))
SHAPE(84, fmin(a,a))
SHAPE(85, pow(K(1.5)+sin((a*c)), cos(a)))
SHAPE(86, hypot(a, 1+cos(a)*K(0.5)))
SHAPE(87, atan2(a, K(1.5)+sin(b)))
SHAPE(88, smooth_max((a*c),b,K(0.4)))
SHAPE(89, smooth_min(a,sin(b),K(0.4)))
SHAPE(90, smooth_max((atan2(a, K(1.5)+sin(a))*b),pow((b-a), 2),K(0.4)))
SHAPE(91, ((-sinh(sin(a)))*a))
SHAPE(92, fmax(pow(K(1.5)+sin(sinh(sin(b))), cos(c)),cos(pow(b*K(0.5), 3))))
SHAPE(93, (cosh(sin(fmin(a,a)))/(2+cos(b))))
SHAPE(94, fabs(erf(min(b,b))))
SHAPE(95, (atan2(pow(K(1.5)+sin(b), cos(b)), K(1.5)+sin(b))/3))
SHAPE(96, (max(exp2(cos(a)),sqrt(a*a+K(0.5)))*(tanh(b)/(2+cos(sqrt(b*b+K(0.5)))))))
SHAPE(97, degrees(K(0.02)*sin(fmax((a/(2+cos(b))), k))))
SHAPE(98, atan2(fmax(max(a, k),b), K(1.5)+sin(max(acos(K(0.6)*cos(a)),(k/(a*a+K(1.5)))))))
SHAPE(99, tanh(smooth_max(hypot(a, 1+cos(a)*K(0.5)),pow(c*K(0.5), 3),K(0.4))))
SHAPE(100, max(atan2(erfc(b), K(1.5)+sin((k+a))),a))
SHAPE(101, pow(K(1.5)+sin(pow(min(k, a)*min(k, a)+K(0.5), K(1.3))), cos(atan2(max(a,a), K(1.5)+sin(b)))))
SHAPE(102, sin(fmin(hypot(a, K(1.1)),a)))
SHAPE(103, (atanh(K(0.5)*sin(max(b,a)))-fmax(fmax(c,a),a)))
SHAPE(104, pow(K(1.5)+sin(erfc((b+b))), cos((fmin(a,b)*k))))
SHAPE(105, fmin(((a-a)/(2+cos(erf(a)))),c))
SHAPE(106, sqrt(a*a+K(0.5)))
SHAPE(107, pow(((b/(2+cos(b)))-exp(K(0.3)*sin(c)))*K(0.5), 3))
SHAPE(108, exp2(cos(smooth_max(min(b,c),pow(K(1.5)+sin(c), cos(a)),K(0.4)))))
SHAPE(109, atanh(K(0.5)*sin(max(smooth_abs(a, K(0.5)),b))))
SHAPE(110, b*c+c*a+a*a+b+c*b+a*c+b*a+c+a*c+b*b+c*c+a+b*a+c*c+a*b+b+c*a+a*a+b*c+c+a*c+b*a+c*a+a+b*b+c*c-k)
SHAPE(111, sin(cos(sin(cos(sin(cos(K(0.3)*sin(cos(sin(cos(sin(cos(sin(a+b)*c)-a))))+b)))-c))))*a+b)
SHAPE(112, (a*K(0.5))-(b/K(0.5))-(c*K(0.5))-(a/K(0.5))-(b*K(0.5))-(c/K(0.5))-(a*K(0.5))-(b/K(0.5))-(c*K(0.5))-(a/K(0.5))-(b*K(0.5))-(c/K(0.5))-(a*K(0.5))-(b/K(0.5))-(c*K(0.5))-(a/K(0.5))-(b*K(0.5))-(c/K(0.5))-(a*K(0.5))-(b/K(0.5))-(c*K(0.5))-(a/K(0.5)))
