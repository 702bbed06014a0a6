import subprocess
M={'244c2b8':'C03','4061458':'C03','125245a':'C04','e8eb382':'C04','15141a3':'C04','f810f20':'C04','6508428':'C04','66ef155':'C04','495d212':'C12','8cbf3a1':'C06','b74c46a':'C06','986219f':'C06','07a2bc8':'C06','5c1081c':'C07','c249650':'C12','b5987a9':'C05','dda2875':'C09','4cb1f9f':'C10','b72f125':'C07','dfacdb3':'C14','63e1f00':'C14','12d8c82':'C07','7863589':'C28','8bfec49':'C13','4eaf7af':'C07','c4189e8':'C07','0dab90a':'C11','f249a71':'C11','ddc907b':'C04','6cba512':'C13','ad01250':'C14','f4d16dc':'C14','cb04edf':'C14','35f1cc3':'C07','c79ed04':'C19','0841c2a':'C19','442a60e':'C07','1b0c8c1':'C19','585097f':'C24','b7fafca':'C23','de027f3':'C23','b334ac8':'C07','1acc860':'C36','6518cd3':'C08','d3a102a':'C26','e59c222':'C25','1776dad':'C27','3690a79':'C25','d73b5f1':'C25','d5ba419':'C25','71eac7d':'C35','578fa75':'C35','4856d8c':'C35','f1070c5':'C08','a19d4cf':'C08','9bd508f':'C08','2658724':'C07','3bcfdce':'C32','1a55dce':'C30','3181399':'C30','ed8a415':'C29','489e2ca':'C29','df7be57':'C35','195f953':'C37','87b4d63':'C37','fd4f2ee':'C39','7145e42':'C39','38a6443':'C38','1f5b359':'C40','8757635':'C40','19ab80e':'C41','a589786':'C41','db1844a':'C42','c868d06':'C42','f99170b':'C42','3a69f66':'C42','3d028b3':'C42','bca9da3':'C15','1d07e09':'C15','1199871':'C15','fec86c4':'C15','5004139':'C20','84586a7':'C06','2c9c808':'C07','bd3f252':'C41','f585421':'C44','3142702':'C44','9960c9e':'C44','0e1979f':'C44','b7aaf4c':'C44','5588eab':'C44','9e6817d':'C44','d6fa4db':'C44','04d3c54':'C44'}
p='/verif/KNOWN_FINDINGS'
keep=[l for l in open(p) if not l.startswith('fixed:')]
out=[]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','09acd63..HEAD'],text=True).splitlines():
    h,s=l.split(' ',1)
    assert s.startswith('fix: '),l
    if h not in M: print('unmapped',l); continue
    out.append('fixed: property=%s %s repaired so that %s\n'%(M[h],h,s[5:]))
open(p,'w').write(''.join(keep+out))
