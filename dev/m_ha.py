import sys; sys.path.insert(0,'/tmp')
from mut import run
S='NULLC/StdLib.cpp'; G=['heapalloc']
run([
('size<=16 -> 17',[(S,'		if(size <= 16)\n','		if(size <= 17)\n')],G),
('swap pools',[(S,'				data = pool32.Alloc();\n				realSize = 32;','				data = pool16.Alloc();\n				realSize = 32;')],G),
('real',[(S,'				realSize = 256;','				realSize = 128;')],G),
('align',[(S,'NULLC::alignedAlloc(size - sizeof(markerType), 4 + sizeof(markerType))','NULLC::alignedAlloc(size - sizeof(markerType), 4)')],G),
('nozero',[(S,'	memset(data, 0, size);\n	*(marker','	*(marker')],G),
('partzero',[(S,'	memset(data, 0, size);\n	*(marker','	memset(data, 0, size - sizeof(markerType));\n	*(marker')],G),
('notype',[(S,'finalize | (type << 8);','finalize;')],G),
('no reg',[(S,'				bigBlocks.insert(range);\n','')],G),
('nolimit2',[(S,'''		if((unsigned long long)usedMemory + size > globalMemoryLimit)
		{
			nullcThrowError("ERROR: reached global memory maximum");
			return NULL;
		}
''','')],G),
('free acct',[(S,'		usedMemory -= freed * elemSize;\n','		usedMemory -= freed;\n')],G),
('arr32',[(S,'	if((unsigned long long)size * count > globalMemoryLimit || (unsigned long long)size * count > 0x7fffffff - 1024)','	if(size * count > globalMemoryLimit || size * count > 0x7fffffff - 1024)')],G),
('ref: limit helper',[(S,'''	if((unsigned long long)usedMemory + size > globalMemoryLimit)
	{
		CollectMemory();

		if((unsigned long long)usedMemory + size > globalMemoryLimit)
		{''','''	if(NULLC::OverLimit(size))
	{
		CollectMemory();

		if(NULLC::OverLimit(size))
		{'''),(S,'void* NULLC::AllocObject(int','namespace NULLC { static bool OverLimit(int size) { return (unsigned long long)usedMemory + size > globalMemoryLimit; } }\nvoid* NULLC::AllocObject(int')],G),
('ref: flat chain',[(S,'''	if(size <= 64)
	{
		if(size <= 16)
		{
			if(size <= 8)
			{
				data = pool8.Alloc();
				realSize = 8;
			}else{
				data = pool16.Alloc();
				realSize = 16;
			}
		}else{
			if(size <= 32)
			{
				data = pool32.Alloc();
				realSize = 32;
			}else{
				data = pool64.Alloc();
				realSize = 64;
			}
		}
	}else{''','''	if(size <= 8) { data = pool8.Alloc(); realSize = 8; }
	else if(size < 17) { data = pool16.Alloc(); realSize = 16; }
	else if(size <= 32) { data = pool32.Alloc(); realSize = 32; }
	else if(size <= 64) { data = pool64.Alloc(); realSize = 64; }
	else{''')],G),
('ref: add first',[(S,'''	usedMemory += realSize;

	if(data == NULL)
	{
		nullcThrowError("ERROR: allocation failed");
		return NULL;
	}
''','''	if(data == NULL)
	{
		nullcThrowError("ERROR: allocation failed");
		return NULL;
	}
	usedMemory += realSize;
''')],G),
])
