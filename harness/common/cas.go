package common

// Two certificate authorities.
const vfCA1 = `-----BEGIN CERTIFICATE-----
MIIBMjCB5aADAgECAhRUEOMzGVk2jBRuMvZEKYvVO3XWrjAFBgMrZXAwDjEMMAoG
A1UEAwwDQ0ExMCAXDTI2MTExOTIwNDY0NFoYDzIxMjYxMDI2MjA0NjQ0WjAOMQww
CgYDVQQDDANDQTEwKjAFBgMrZXADIQC9KTajidm4D+Sd2MWGhs8vAmI1Tl2T7Dwk
GQlK3S7yaKNTMFEwHQYDVR0OBBYEFCjzn0NgTMqzJqSCvRsBVE9y8lT/MB8GA1Ud
IwQYMBaAFCjzn0NgTMqzJqSCvRsBVE9y8lT/MA8GA1UdEwEB/wQFMAMBAf8wBQYD
K2VwA0EAVvgErQmKXqum6/v416p57ornuGmA2hasOrqqLZm23LuZNJPRo+0Zk/w4
vUgE3S0X2HG6/fq6EqifFmKyCtTYAw==
-----END CERTIFICATE-----
`

const vfCA2 = `-----BEGIN CERTIFICATE-----
MIIBMjCB5aADAgECAhRHW4ZyOxwAAs9WlWeaBnpe89rEnzAFBgMrZXAwDjEMMAoG
A1UEAwwDQ0EyMCAXDTI2MTExOTIwNDY0NFoYDzIxMjYxMDI2MjA0NjQ0WjAOMQww
CgYDVQQDDANDQTIwKjAFBgMrZXADIQBO00UjuoOtbi88oVHoNODMZ5MhX4JaQPvL
4iMdsezQU6NTMFEwHQYDVR0OBBYEFETsc4dFaJMQIu0sv8KspnjvuKisMB8GA1Ud
IwQYMBaAFETsc4dFaJMQIu0sv8KspnjvuKisMA8GA1UdEwEB/wQFMAMBAf8wBQYD
K2VwA0EA5mlupReVR2Nxfquj9YRrj9AfyM91xVO/bbwA72l0brP8xtjbmY2QASat
HcilB1kFnMHf2gY9IuOMGmxluUuADg==
-----END CERTIFICATE-----
`
